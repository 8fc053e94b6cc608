------------------------- MODULE Trace_SmallArrays -------------------------
EXTENDS SmallArrays, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, q
OK(e) ==
  CASE e.op = "reset" -> q' = [h \in 1..NH |-> <<>>]
    [] e.op = "call" ->
         /\ q' = Apply(q, e.f, e.i, e.j, e.n, e.v)
         /\ \A h \in 1..NH : /\ e.vals[h] = q'[h] /\ e.sizes[h] = Len(q'[h]) /\ e.idx[h] = q'[h]
                             /\ \A k \in 1..NH : e.eq[h][k] = (q'[h] = q'[k])
         /\ e.max = e.cap
    \* iterator ranges: delivered elements, emptiness and (random access only) size
    [] e.op = "range" -> /\ e.got = SubSeq(e.elems, e.lo + 1, e.hi) /\ e.again = e.got
                         /\ e.empty = (e.lo = e.hi)
                         /\ e.size \in {e.hi - e.lo} \cup (IF e.ra THEN {} ELSE {0 - 1})
                         /\ UNCHANGED q
    [] OTHER -> FALSE
Init == l = 1 /\ q = [h \in 1..NH |-> <<>>]
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
