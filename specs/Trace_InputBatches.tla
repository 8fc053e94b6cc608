------------------------- MODULE Trace_InputBatches -------------------------
EXTENDS InputBatches, TLC, Json, IOUtils
CONSTANT NH
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, q
Hs == 1..NH
Set(h, r) == q' = [q EXCEPT ![h] = r]
Code(ok) == IF ok THEN 0 ELSE 3                     \* OK, InvalidArgument
Effect(e) ==
  CASE e.f = "append" -> e.code = Code(AppendOk(q[e.h], e.ins)) /\ Set(e.h, AppendTo(q[e.h], e.ins))       \* one input or a span
    [] e.f = "create" -> e.code = Code(ValidSeq(e.ins)) /\ Set(e.h, IF ValidSeq(e.ins) THEN e.ins ELSE q[e.h])
    [] e.f = "set" -> e.code = Code(SetOk(q[e.h], e.i + 1, e.ins[1])) /\ Set(e.h, SetAt(q[e.h], e.i + 1, e.ins[1]))
    [] e.f = "join" -> e.code = Code(JoinOk(q[e.h], q[e.j])) /\ Set(e.h, IF JoinOk(q[e.h], q[e.j]) THEN q[e.h] \o q[e.j] ELSE q[e.h])
    [] e.f = "erase" -> e.code = 0 /\ Set(e.h, Erase(q[e.h], e.i, e.n))
    [] e.f = "clear" -> e.code = 0 /\ Set(e.h, <<>>)
    [] e.f \in {"copy", "deep", "cctor"} -> e.code = 0 /\ Set(e.h, q[e.j])
    [] e.f = "move" -> e.code = 0 /\ q' = [q EXCEPT ![e.h] = q[e.j], ![e.j] = <<>>]     \* the driver clears the source
    [] e.f = "xform" -> e.code = 0 /\ Set(e.h, Transform(q[e.h], e.np))
    [] OTHER -> FALSE
OK(e) == \/ e.op = "reset" /\ q' = [h \in Hs |-> <<>>]
         \/ e.op = "call" /\ Effect(e) /\ \A h \in Hs : Reports(q'[h], e.st[h])
Init == l = 1 /\ q = [h \in Hs |-> <<>>]
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
