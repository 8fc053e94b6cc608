-------------------------- MODULE Trace_InProgress --------------------------
EXTENDS InProgress, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, g, cp                       \* g: digest of the geometry; cp: digests of the copies made, which never change
Effect(e) ==
  CASE e.f = "start" -> e.code = Ok /\ s' = Begin(s, e.bc)
    [] e.f = "clear" -> e.code = Ok /\ s' = Clear(s)
    [] e.f = "finish" -> e.code = Ok /\ s' = Finish(s)
    [] e.f = "region" -> e.code = Ok /\ s' = s /\ e.noregion
    [] e.f = "enq" -> e.code = EnqCode(s, e.r, e.p) /\ s' = Enq(s, e.r, e.p)
    [] e.f = "update" -> e.code = UpdateCode(s, e.t) /\ s' = Update(s, e.t)
    [] e.f = "copy" -> e.code = Ok /\ s' = s /\ e.cins = s.real \o s.pred /\ e.cgroups = s.coats
    [] OTHER -> FALSE
Call(e) ==
  /\ Effect(e) /\ ReportsStroke(s', e)
  /\ cp' = (IF e.f = "copy" THEN cp \o <<e.new>> ELSE cp) /\ e.cp = cp'
  /\ g' = e.g /\ ((e.f \in {"start", "clear"} \/ (e.f = "update" /\ e.code = Ok)) \/ g = 0 - 1 \/ e.g = g)
OK(e) == \/ e.op = "reset" /\ s' = Blank /\ g' = 0 - 1 /\ cp' = <<>>
         \/ e.op = "call" /\ Call(e)
Init == l = 1 /\ s = Blank /\ g = 0 - 1 /\ cp = <<>>
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
