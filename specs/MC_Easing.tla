------------------------------ MODULE MC_Easing ------------------------------
(* Model of the curves on coarse grids: they pass through (0, 0) and (1, 1), lines through their points, steps have the documented levels, Bezier curves  *)
(* with ordinates in [0, 1] rise; a table of 14 values (what rendering time affords) stays as close as the property demands. The lists of points are replayed. *)
EXTENDS Easing, FiniteSets, TLC
CONSTANT N
VARIABLES kind, pts, par
Grid == {0, 64, 128, 256}
Ys == {-8, 0, 8, 24}
Init == \/ kind = "line" /\ pts = <<>> /\ par = 0
        \/ kind = "bezier" /\ pts = <<>> /\ par \in [x1 : {0, 16, 64}, y1 : {-64, 0, 64, 128}, x2 : {0, 37, 64}, y2 : {-64, 0, 64, 128}]
        \/ kind = "steps" /\ pts = <<>> /\ par \in [n : 1 .. 9, pos : {"kJumpEnd", "kJumpStart", "kJumpBoth", "kJumpNone"}]
Next == kind = "line" /\ Len(pts) < N /\ \E x \in Grid, y \in Ys : (Len(pts) > 0 => x >= pts[Len(pts)][1]) /\ pts' = Append(pts, <<x, y>>) /\ UNCHANGED <<kind, par>>
Line == kind = "line" =>
  /\ LineValue(pts, 256) = Res
  /\ (\A i \in 1 .. Len(pts) : pts[i][1] > 0) => LineValue(pts, 0) = 0
  /\ \A i \in 1 .. Len(pts) : ((pts[i][1] < 256 /\ \A j \in i + 1 .. Len(pts) : pts[j][1] > pts[i][1]) => LineValue(pts, pts[i][1]) = pts[i][2] * 4096)
  /\ (pts = <<>> => \A x \in {-256, -3, 0, 5, 256, 700} : LineValue(pts, x) = x * 256)
Steps == (kind = "steps" /\ par.n >= IF par.pos = "kJumpNone" THEN 2 ELSE 1) =>
  LET y(x) == StepValue(par.n, par.pos, x) IN
  /\ y(-1) = 0 /\ y(4096) = Res
  /\ Cardinality({y(x) : x \in 0 .. 4095}) = par.n
  /\ \A x \in 0 .. 4095 : y(x) <= y(x + 1)
  /\ (y(0) = 0 <=> par.pos \in {"kJumpEnd", "kJumpNone"}) /\ (y(4095) = Res <=> par.pos \in {"kJumpStart", "kJumpNone"})
Table(f, x) == LET i == (x * 13) \div U  lo == (i * U) \div 13  hi == ((i + 1) * U) \div 13 IN CurveAt(f, lo) + ((CurveAt(f, hi) - CurveAt(f, lo)) * ((x - lo) \div 4)) \div ((hi - lo) \div 4)
Bezier == kind = "bezier" =>
  /\ Coord(par.y1, par.y2, 0) = 0 /\ IAbs(Coord(par.y1, par.y2, U) - U) <= 2
  /\ \A k \in 1 .. 31 : BezierOK(par, k * 1024, 2 * Table(par, k * 1024))
  /\ (par.y1 \in 0 .. 64 /\ par.y2 \in 0 .. 64) => \A k \in 1 .. 31 : CurveAt(par, k * 1024) >= CurveAt(par, (k - 1) * 1024) - 3
RECURSIVE Text(_, _)
Text(s, i) == IF i > Len(s) THEN "" ELSE ToString(s[i][1]) \o " " \o ToString(s[i][2]) \o ";" \o Text(s, i + 1)
Emit == IF kind = "line" /\ pts # <<>> THEN PrintT("BEH " \o Text(pts, 1)) ELSE TRUE
=============================================================================
