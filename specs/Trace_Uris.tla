---------------------------- MODULE Trace_Uris ----------------------------
EXTENDS Uris, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "parse" -> LET u == Parse(e.s) IN
         /\ e.ok = u.ok
         /\ ~u.ok => e.code = 3                                   \* InvalidArgument
         /\ u.ok => /\ e.reg = u.reg /\ e.type = u.type /\ e.name = u.name /\ e.rev = u.rev
                    /\ e.inkreg = (u.reg = InkScheme)
                    /\ e.canon = Canonical(u) /\ e.str = e.canon
                    /\ e.back                                      \* parsing the canonical text gives an equal value
    [] e.op = "pair" -> LET u == Parse(e.s)  v == Parse(e.t) IN
         /\ e.eq = (u = v) /\ e.ne = ~e.eq /\ (u = v => e.hash)
         /\ e.eq = (Canonical(u) = Canonical(v))
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
