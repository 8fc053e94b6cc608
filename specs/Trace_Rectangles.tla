-------------------------- MODULE Trace_Rectangles --------------------------
(* An event: the operation, its side s and arguments a; the rectangle afterwards as order-preserving codes rc with everything *)
(* it reports. In a grid history the coordinates are also given in grid units (r, arguments a), on the grid exactly when      *)
(* grid holds of the rectangle before; otherwise the arguments are codes.                                                     *)
EXTENDS Rectangles, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, r, rc
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* what any rectangle reports about itself and about points and rectangles, by order alone
Reports(c, e) ==
  /\ Ordered(c)
  /\ e.corners = Corners(c)
  /\ e.edges = [i \in 1..4 |-> <<Corners(c)[i][1], Corners(c)[i][2], Corners(c)[(i % 4) + 1][1], Corners(c)[(i % 4) + 1][2]>>]
  /\ \A i \in 1..Len(e.has) : e.has[i].in = HasPoint(c, e.has[i].x, e.has[i].y)
  /\ \A i \in 1..Len(e.hasRect) : e.hasRect[i].in = HasRect(c, e.hasRect[i].o)
  /\ (e.finite => e.finiteParts) /\ (e.finite => HasPoint(<<c[1] - 2, c[2] - 2, c[3] + 2, c[4] + 2>>, e.c[1], e.c[2]))
\* grid histories: measures
Measures(q, e) ==
  /\ Abs(e.cx2 - CX2(q)) <= 1 /\ Abs(e.cy2 - CY2(q)) <= 1 /\ Abs(e.w - W(q)) <= 1 /\ Abs(e.h - H(q)) <= 1
  /\ Abs(e.semiW2 - W(q)) <= 1 /\ Abs(e.semiH2 - H(q)) <= 1
  /\ (e.ongrid => e.cx2 = CX2(q) /\ e.cy2 = CY2(q) /\ e.w = W(q) /\ e.h = H(q) /\ e.semiW2 = W(q) /\ e.semiH2 = H(q))
  /\ (e.ongrid /\ W(q) % 256 = 0 /\ H(q) % 256 = 0 => e.area16 = (W(q) \div 256) * (H(q) \div 256))
  /\ (H(q) > 16 => Abs(e.aspect1024 * H(q) - 1024 * W(q)) <= H(q) * (1 + e.aspect1024 \div 16) + 1024 + e.aspect1024)      \* width and height were rounded to units
Close(x, y8, m) == Abs(8 * x - y8) <= 16 * (m + 1)
\* how much an operation can magnify the rounding of what it was given
Gain(e) == IF e.op \in {"containing", "interior"} THEN Hi(e.a[1], e.a[2]) ELSE IF e.op = "scale" THEN 2 ELSE 1
\* a ratio that is not a power of two is rounded before it is used
ExactRatio(e) == e.op \in {"containing", "interior"} => {e.a[1], e.a[2]} \subseteq {0, 1, 2, 4, 8} /\ W(r) % 64 = 0 /\ H(r) % 64 = 0
Moved(e) == LET x == Result8(e.op, r, e.o, e.s, e.a) IN
  /\ \A i \in 1..4 : Close(e.r[i], x[i], Gain(e))
  /\ (e.grid /\ OnGrid(x) /\ ExactRatio(e) => e.r = Down(x) /\ e.ongrid)
\* raw histories: selection is exact; a size set about the centre keeps the centre inside, and a centre set is inside
RawMoved(e) ==
  /\ (e.op \in Selects => e.rc = Chosen(e.op, rc, e.o, e.s, e.a))
  /\ (e.op \in {"setCenter", "center"} /\ e.finite => HasPoint(<<e.rc[1] - 2, e.rc[2] - 2, e.rc[3] + 2, e.rc[4] + 2>>, e.a[1], e.a[2]))
  /\ (e.op \in {"setWidth", "setHeight"} /\ e.argfinite => HasPoint(<<e.rc[1] - 2, e.rc[2] - 2, e.rc[3] + 2, e.rc[4] + 2>>, e.was[1], e.was[2]))
  /\ (e.op = "setWidth" => e.rc[2] = rc[2] /\ e.rc[4] = rc[4]) /\ (e.op = "setHeight" => e.rc[1] = rc[1] /\ e.rc[3] = rc[3])
  /\ (e.op = "offset" /\ e.a[1] >= 0 /\ e.a[2] >= 0 => HasRect(e.rc, rc))
  /\ (e.op = "slide" => e.s = "xmin" \/ e.s = "xmax" \/ (e.rc[1] = rc[1] /\ e.rc[3] = rc[3]))
  /\ (e.op = "slide" => e.s = "ymin" \/ e.s = "ymax" \/ (e.rc[2] = rc[2] /\ e.rc[4] = rc[4]))
  /\ (e.op = "default" => e.rc = <<0, 0, 0, 0>>)
OK(e) ==
  CASE e.op = "reset" -> UNCHANGED <<r, rc>>
    [] e.raw -> (Reports(e.rc, e) /\ RawMoved(e)) = TRUE /\ rc' = e.rc /\ UNCHANGED r
    [] OTHER -> (Reports(e.rc, e) /\ Measures(e.r, e) /\ Moved(e)) = TRUE /\ r' = e.r /\ rc' = e.rc
Init == l = 1 /\ r = <<0, 0, 0, 0>> /\ rc = <<0, 0, 0, 0>>
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
