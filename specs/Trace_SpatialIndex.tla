------------------------ MODULE Trace_SpatialIndex ------------------------
EXTENDS SpatialIndex, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, boxes     \* the elements of the tree under test
OK(e) ==
  CASE e.op = "reset" -> UNCHANGED boxes
    [] e.op = "tree" -> boxes' = e.els /\ e.n = Len(e.els)
    [] e.op = "query" -> Allowed(boxes, e.q, e.after, e.seen) /\ UNCHANGED boxes
    [] OTHER -> FALSE
Init == l = 1 /\ boxes = <<>>
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
