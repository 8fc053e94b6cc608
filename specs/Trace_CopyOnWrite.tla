------------------------- MODULE Trace_CopyOnWrite -------------------------
EXTENDS CopyOnWrite, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
First(t, h) == CHOOSE k \in Handles : t.ref[k] = t.ref[h] /\ \A m \in Handles : t.ref[m] = t.ref[h] => k <= m
Observes(t, e) == \A h \in Handles :
  /\ e.has[h] = Has(t, h) /\ e.shared[h] = Shared(t, h)
  /\ e.vals[h] = (IF Has(t, h) THEN Value(t, h) ELSE -1)
  /\ e.addr[h] = (IF Has(t, h) THEN First(t, h) ELSE 0)
OK(e) ==
  \/ e.op = "reset" /\ s' = St0
  \/ /\ e.op = "call"
     /\ s' = Apply(s, e.f, e.i, e.j, e.v)
     /\ Observes(s', e) /\ e.live = Live(s') /\ e.copies = Copies(s, e.f, e.i)
Init == l = 1 /\ s = St0
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
