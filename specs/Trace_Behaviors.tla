--------------------------- MODULE Trace_Behaviors ---------------------------
EXTENDS Behaviors, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fixed
OK(e) == \/ e.op = "reset" /\ fixed' = <<>>
         \/ e.op = "node" /\ UNCHANGED fixed /\ Node(e) = TRUE
         \/ e.op = "tip" /\ UNCHANGED fixed /\ Tip(e) = TRUE
         \/ e.op = "mix" /\ UNCHANGED fixed /\ Mix(e) = TRUE
         \/ e.op = "particles" /\ UNCHANGED fixed /\ Particles(e) = TRUE
         \/ e.op = "update" /\ Update(fixed, e) = TRUE /\ fixed' = fixed \o e.new
Init == l = 1 /\ fixed = <<>>
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
==============================================================================
