------------------------------- MODULE Easing -------------------------------
(* Easing functions as curves through (0, 0) and (1, 1).  Abscissas are in 1/256 for lines, 1/4096 for steps and 1/32768 for      *)
(* Bezier curves; control points in 1/16 (lines) and 1/64 (Bezier); results are in 1/65536.                                      *)
EXTENDS BrushParts
Res == 65536
IAbs(x) == IF x < 0 THEN -x ELSE x
\* ------------------------------------------------------------------ lines
\* All points, with the implied ends; x in 1/256, y in 1/16
Points(pts) == <<<<0, 0>>>> \o pts \o <<<<256, 16>>>>
\* the last point at or before x, and the first one after (for x inside); for x outside, the first / last two points
After(ps, x) == CHOOSE i \in 2 .. Len(ps) : ps[i][1] > x /\ ps[i - 1][1] <= x
OnLine(p, q, x) == p[2] * 4096 + ((q[2] - p[2]) * (x - p[1]) * 4096) \div (q[1] - p[1])
LineValue(pts, x) ==
  LET ps == Points(pts) n == Len(ps) IN
  IF x < 0 THEN OnLine(ps[1], ps[2], x)
  ELSE IF x = 256 THEN Res
  ELSE IF x > 256 THEN OnLine(ps[n - 1], ps[n], x)
  ELSE LET i == After(ps, x) IN OnLine(ps[i - 1], ps[i], x)
\* a vertical first or last segment says nothing about the outside
LineDefined(pts, x) == LET ps == Points(pts) n == Len(ps) IN (x < 0 => ps[1][1] < ps[2][1]) /\ (x > 256 => ps[n - 1][1] < ps[n][1])
LineOK(pts, x, y) == LineDefined(pts, x) => LET v == LineValue(pts, x) IN IAbs(y - v) <= 3 + IAbs(v) \div 262144 + (IF x < 0 \/ x > 256 THEN IAbs(v) \div 65536 ELSE 0)
\* at minus (-1) and plus (1) infinity: the sign of an infinite value, or 2 and the finite one
LineFar(pts, side, far, y) ==
  LET ps == Points(pts) n == Len(ps)  p == IF side < 0 THEN ps[1] ELSE ps[n - 1]  q == IF side < 0 THEN ps[2] ELSE ps[n] IN
  p[1] < q[1] => IF p[2] = q[2] THEN far = 2 /\ y = q[2] * 4096 ELSE far = side * (IF q[2] > p[2] THEN 1 ELSE -1)
\* ------------------------------------------------------------------ steps
StepNumerator(n, pos, k) == k + IF pos \in {"kJumpStart", "kJumpBoth"} THEN 1 ELSE 0
StepDenominator(n, pos) == CASE pos \in {"kJumpEnd", "kJumpStart"} -> n [] pos = "kJumpBoth" -> n + 1 [] pos = "kJumpNone" -> n - 1
Level(n, pos, k) == (StepNumerator(n, pos, k) * Res) \div StepDenominator(n, pos)
StepValue(n, pos, x) == IF x < 0 THEN 0 ELSE IF x >= 4096 THEN Res ELSE Level(n, pos, (n * x) \div 4096)
\* next to the jump k of n (where x may have been rounded to either side)
StepNear(n, pos, k, y) == IAbs(y - Level(n, pos, k)) <= 2 \/ IAbs(y - (IF k = 0 THEN 0 ELSE Level(n, pos, k - 1))) <= 2
\* ------------------------------------------------------------------ Bezier curves
U == 32768
M(a, b) == (a * b) \div U
\* one coordinate of the curve at t, for control values in 1/64; in 1/32768
Coord(c1, c2, t) ==
  LET s == U - t  st == M(s, t)  a == M(st, s)  b == M(st, t) IN
  (3 * a * c1) \div 64 + (3 * b * c2) \div 64 + M(M(t, t), t)
RECURSIVE Solve(_, _, _, _, _)
\* the parameter at which the abscissa reaches x: lo <= t <= hi
Solve(x1, x2, x, lo, hi) == IF hi - lo <= 1 THEN hi ELSE LET m == (lo + hi) \div 2 IN IF Coord(x1, x2, m) < x THEN Solve(x1, x2, x, m, hi) ELSE Solve(x1, x2, x, lo, m)
CurveAt(f, x) == IF x <= 0 THEN 0 ELSE IF x >= U THEN U ELSE Coord(f.y1, f.y2, Solve(f.x1, f.x2, x, 0, U))
Grain == 2600      \* a little more than 1/13: curves may be tabulated this coarsely
\* The value must be within the curve's values nearby, and as close to it as interpolating over a grain's distance allows.
BezierOK(f, x, y2) ==
  LET y == y2 \div 2                                        \* in 1/32768
      eps == 20 + 2 * (IAbs(f.y1) + IAbs(f.y2)) IN
  IF x <= 0 THEN IAbs(y2) <= 1 ELSE IF x >= U THEN IAbs(y2 - Res) <= 2 + (IAbs(f.y1) + IAbs(f.y2)) \div 64
  ELSE LET d == Grain
           v0 == CurveAt(f, x) a1 == CurveAt(f, x - d) b1 == CurveAt(f, x + d) a2 == CurveAt(f, x - 2 * d) b2 == CurveAt(f, x + 2 * d)
           bend == IAbs(a1 - 2 * v0 + b1) + IAbs(a2 - 2 * a1 + v0) + IAbs(v0 - 2 * b1 + b2)
           \* bulges smaller than a grain next to the ends or to an upright part
           steep == f.x1 < 6 \/ f.x2 > 58 \/ f.x1 - f.x2 > 32
       IN IAbs(y - v0) <= eps + (IF steep THEN bend ELSE bend \div 3)
Predefined(name) == CASE name = "kEase" -> [x1 |-> 16, y1 |-> 6, x2 |-> 16, y2 |-> 64] [] name = "kEaseIn" -> [x1 |-> 27, y1 |-> 0, x2 |-> 64, y2 |-> 64]
                      [] name = "kEaseOut" -> [x1 |-> 0, y1 |-> 0, x2 |-> 37, y2 |-> 64] [] name = "kEaseInOut" -> [x1 |-> 27, y1 |-> 0, x2 |-> 37, y2 |-> 64]
PredefinedOK(name, x, y2) ==       \* their parameters are a little off the 1/64 grid
  IF x <= 0 THEN IAbs(y2) <= 1 ELSE IF x >= U THEN IAbs(y2 - Res) <= 2 ELSE LET v == CurveAt(Predefined(name), x) IN IAbs(y2 \div 2 - v) <= 900
Rises(ys) == \A i \in 2 .. Len(ys) : ys[i] >= ys[i - 1] - 1
Falls(ys) == \A i \in 2 .. Len(ys) : ys[i] <= ys[i - 1] + 1
=============================================================================
