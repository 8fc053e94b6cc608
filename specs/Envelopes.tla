------------------------------ MODULE Envelopes ------------------------------
(* Envelopes: the smallest axis-aligned box of everything added. A box is <<>> (empty) or <<xmin, ymin, xmax, ymax>>; what  *)
(* is added is a sequence of points (the vertices of an object; an envelope contributes its box's corners, or nothing).     *)
(* Coordinates are only ever compared, so they may be any order-preserving codes.                                           *)
EXTENDS Integers, Sequences
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
JoinPt(b, p) == IF b = <<>> THEN <<p[1], p[2], p[1], p[2]>> ELSE <<Lo(b[1], p[1]), Lo(b[2], p[2]), Hi(b[3], p[1]), Hi(b[4], p[2])>>
RECURSIVE AddFrom(_, _, _)
AddFrom(b, P, i) == IF i > Len(P) THEN b ELSE AddFrom(JoinPt(b, P[i]), P, i + 1)
AddPts(b, P) == AddFrom(b, P, 1)
CornersOf(b) == IF b = <<>> THEN <<>> ELSE << <<b[1], b[2]>>, <<b[3], b[4]>> >>
AddBox(b, o) == AddPts(b, CornersOf(o))
\* declarative: the smallest box containing the set S of points
InBox(p, b) == b # <<>> /\ b[1] <= p[1] /\ p[1] <= b[3] /\ b[2] <= p[2] /\ p[2] <= b[4]
IsHull(b, S) == ((b = <<>>) = (S = {})) /\ (\A p \in S : InBox(p, b))
  /\ (S # {} => (\E p \in S : p[1] = b[1]) /\ (\E p \in S : p[2] = b[2]) /\ (\E p \in S : p[1] = b[3]) /\ (\E p \in S : p[2] = b[4]))
=============================================================================
