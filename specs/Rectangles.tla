----------------------------- MODULE Rectangles -----------------------------
(* Axis-aligned rectangles <<xmin, ymin, xmax, ymax>> with integer coordinates (units of a dyadic grid) and the effect of     *)
(* every operation on them. Results are given times 8, because centring and scaling by quarters can leave the grid.           *)
EXTENDS Integers, Sequences
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
W(r) == r[3] - r[1]
H(r) == r[4] - r[2]
Ordered(r) == r[1] <= r[3] /\ r[2] <= r[4]
Times8(r) == [i \in 1..4 |-> 8 * r[i]]
\* around twice the centre (cx2, cy2), with width w4/4 and height h4/4
Around(cx2, cy2, w4, h4) == <<4 * cx2 - w4, 4 * cy2 - h4, 4 * cx2 + w4, 4 * cy2 + h4>>
CX2(r) == r[1] + r[3]
CY2(r) == r[2] + r[4]
TwoPoints(a, b, c, d) == <<Lo(a, c), Lo(b, d), Hi(a, c), Hi(b, d)>>
JoinPoint(r, x, y) == <<Lo(r[1], x), Lo(r[2], y), Hi(r[3], x), Hi(r[4], y)>>
JoinRect(r, o) == <<Lo(r[1], o[1]), Lo(r[2], o[2]), Hi(r[3], o[3]), Hi(r[4], o[4])>>
HasPoint(r, x, y) == r[1] <= x /\ x <= r[3] /\ r[2] <= y /\ y <= r[4]
HasRect(r, o) == r[1] <= o[1] /\ o[3] <= r[3] /\ r[2] <= o[2] /\ o[4] <= r[4]
Corners(r) == << <<r[1], r[2]>>, <<r[3], r[2]>>, <<r[3], r[4]>>, <<r[1], r[4]>> >>
Resize(r, side, v) ==
  CASE side = "xmin" -> <<v, r[2], Hi(r[3], v), r[4]>>
    [] side = "ymin" -> <<r[1], v, r[3], Hi(r[4], v)>>
    [] side = "xmax" -> <<Lo(r[1], v), r[2], v, r[4]>>
    [] OTHER -> <<r[1], Lo(r[2], v), r[3], v>>
Shift(r, dx, dy) == <<r[1] + dx, r[2] + dy, r[3] + dx, r[4] + dy>>
Slide(r, side, v) ==
  CASE side = "xmin" -> Shift(r, v - r[1], 0)
    [] side = "ymin" -> Shift(r, 0, v - r[2])
    [] side = "xmax" -> Shift(r, v - r[3], 0)
    [] OTHER -> Shift(r, 0, v - r[4])
\* aspect ratio num/den: 4 * width and 4 * height of the containing and of the interior rectangle, rounded down
Wider(r, num, den) == num * H(r) > den * W(r)      \* the wanted shape is wider than r
Containing4(r, num, den) == IF Wider(r, num, den) THEN <<(4 * H(r) * num) \div den, 4 * H(r)>> ELSE <<4 * W(r), (4 * W(r) * den) \div num>>
Interior4(r, num, den) == IF Wider(r, num, den) THEN <<4 * W(r), (4 * W(r) * den) \div num>> ELSE <<(4 * H(r) * num) \div den, 4 * H(r)>>
\* The result (times 8) of one operation with integer arguments a (and a side's name s) on rectangle r and other rectangle o.
Result8(op, r, o, s, a) ==
  CASE op = "center" -> Around(2 * a[1], 2 * a[2], 4 * a[3], 4 * a[4])
    [] op = "two" -> Times8(TwoPoints(a[1], a[2], a[3], a[4]))
    [] op = "setCenter" -> Around(2 * a[1], 2 * a[2], 4 * W(r), 4 * H(r))
    [] op = "setWidth" -> Around(CX2(r), CY2(r), 4 * a[1], 4 * H(r))
    [] op = "setHeight" -> Around(CX2(r), CY2(r), 4 * W(r), 4 * a[1])
    [] op = "offset" -> Around(CX2(r), CY2(r), 4 * Hi(0, W(r) + 2 * a[1]), 4 * Hi(0, H(r) + 2 * a[2]))
    [] op = "scale" -> Around(CX2(r), CY2(r), W(r) * a[1], H(r) * a[2])           \* factors in quarters
    [] op = "translate" -> Times8(Shift(r, a[1], a[2]))
    [] op = "joinPoint" -> Times8(JoinPoint(r, a[1], a[2]))
    [] op = "joinRect" -> Times8(JoinRect(r, o))
    [] op = "resize" -> Times8(Resize(r, s, a[1]))
    [] op = "slide" -> Times8(Slide(r, s, a[1]))
    [] op = "containing" -> LET d == Containing4(r, a[1], a[2]) IN Around(CX2(r), CY2(r), d[1], d[2])
    [] op = "interior" -> LET d == Interior4(r, a[1], a[2]) IN Around(CX2(r), CY2(r), d[1], d[2])
    [] OTHER -> Times8(r)
\* The same for operations that only select among their operands; then coordinates may be any order-preserving codes.
Selects == {"two", "joinPoint", "joinRect", "resize"}
Chosen(op, r, o, s, a) ==
  CASE op = "two" -> TwoPoints(a[1], a[2], a[3], a[4])
    [] op = "joinPoint" -> JoinPoint(r, a[1], a[2])
    [] op = "joinRect" -> JoinRect(r, o)
    [] OTHER -> Resize(r, s, a[1])
OnGrid(r8) == \A i \in 1..4 : r8[i] % 8 = 0
Down(r8) == [i \in 1..4 |-> r8[i] \div 8]
=============================================================================
