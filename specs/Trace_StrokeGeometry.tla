------------------------ MODULE Trace_StrokeGeometry ------------------------
EXTENDS StrokeGeometry, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen, region, changed
Obs(e) == LET key == <<e.real, e.pred, e.t>> IN Agree(seen, key, e.g, e.settled) = TRUE /\ seen' = seen \cup {<<key, e.g, e.settled>>}
Shape(e) ==
  /\ e.groups = e.bc /\ Len(e.coats) = e.bc
  /\ \A k \in 1..Len(e.coats) : WellFormed(e.coats[k]) /\ CopyOf(e.coats[k])
  /\ e.sbox = BoxOf(UNION {{e.coats[k].pos[v + 1] : v \in Used(e.coats[k].tri)} : k \in 1..Len(e.coats)}) /\ e.boxsteps <= 1
OK(e) ==
  \/ e.op = "reset" /\ seen' = {} /\ region' = <<>> /\ changed' = <<>>
  \/ e.op = "obs" /\ Obs(e) /\ UNCHANGED <<region, changed>>
  \/ e.op = "needs" /\ e.needs = NeedsUpdate(e.queued, e.since, e.bounds) /\ UNCHANGED <<seen, region, changed>>
  \/ e.op = "region" /\ e.region = <<>> /\ region' = <<>> /\ changed' = <<>> /\ seen' = seen
  \/ e.op = "update" /\ region' = e.region /\ changed' = Join(changed, e.changed) /\ Covers(e.region, region) /\ Covers(e.region, changed') /\ seen' = seen
  \/ e.op = "shape" /\ Shape(e) /\ UNCHANGED <<seen, region, changed>>
Init == l = 1 /\ seen = {} /\ region = <<>> /\ changed = <<>>
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
