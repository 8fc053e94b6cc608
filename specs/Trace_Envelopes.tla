--------------------------- MODULE Trace_Envelopes ---------------------------
EXTENDS Envelopes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, box
Expected(e) ==
  CASE e.op = "add" -> [box EXCEPT ![e.h] = AddPts(@, e.pts)]
    [] e.op = "new" -> [box EXCEPT ![e.h] = AddPts(<<>>, e.pts)]
    [] e.op = "env" -> [box EXCEPT ![e.h] = AddBox(@, box[e.j])]
    [] e.op = "copy" -> [box EXCEPT ![e.h] = box[e.j]]
    [] e.op = "empty" -> [box EXCEPT ![e.h] = <<>>]
    [] OTHER -> box
\* what every envelope reports afterwards: its box, whether it calls itself empty, whether it prints as empty
Seen(b, o) == o.box = b /\ o.empty = (b = <<>>) /\ o.shown = (b = <<>>)
OK(e) == IF e.op = "reset" THEN box' = [h \in 1..2 |-> <<>>] ELSE box' = Expected(e) /\ (\A h \in 1..2 : Seen(box'[h], e.all[h]))
Init == l = 1 /\ box = [h \in 1..2 |-> <<>>]
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
