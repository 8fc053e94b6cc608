--------------------------- MODULE Trace_Bitmaps ---------------------------
EXTENDS Bitmaps, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "bitmap" -> e.ok = Acceptable(e) /\ (~e.ok => e.code = 3) /\ e.kept
    [] e.op = "perpixel" -> e.n = BytesPerPixel[e.pixel]
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
