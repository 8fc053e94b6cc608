------------------------- MODULE Trace_InputModeling -------------------------
EXTENDS InputModeling, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, known, stables \* known: <<real inputs, predictions>> -> <<counts, digest of the modeled inputs>> seen in this group of histories
Model(e) ==
  IF e.f = "start" THEN s' = Blank /\ UNCHANGED <<known, stables>> /\ e.ins = <<>> /\ e.stable = 0 /\ e.real = 0 /\ e.cd = 0 /\ e.ct = 0 /\ e.rd = 0 /\ e.rt = 0 /\ e.tool = 0 /\ e.unit = 0
  ELSE LET n == Extend(s, e)   key == <<n.real, e.p>>   val == <<e.stable, e.real, Len(e.ins), e.g>>   st == <<e.stable, e.sg>> IN
       /\ (Ordered(e) /\ Totals(e) /\ Stays(s, e) /\ Format(n, e) /\ Turns(e) /\ Spans(e, n.real \o e.p, 6, 9) /\ Spans(e, n.real \o e.p, 7, 10)) = TRUE     \* (= TRUE: TLC then evaluates it as a value)
       /\ s' = n
       /\ IF key \in DOMAIN known THEN known[key] = val /\ known' = known ELSE known' = known @@ (key :> val)
       /\ IF n.real \in DOMAIN stables THEN stables[n.real] = st /\ stables' = stables ELSE stables' = stables @@ (n.real :> st)
OK(e) == \/ e.op = "reset" /\ s' = Blank /\ known' = <<>> /\ stables' = <<>>
         \/ e.op = "model" /\ Model(e)
Init == l = 1 /\ s = Blank /\ known = <<>> /\ stables = <<>>
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
==============================================================================
