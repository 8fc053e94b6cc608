------------------------------ MODULE MC_Flips ------------------------------
(* Positions rounded to whole steps, on a grid of eighths of a step: which small meshes of triangles with non-negative area get flipped by rounding each corner   *)
(* to the nearest step, and that moving corners to the step on their other side can always undo that for one triangle. Those flipped are packed by the code.     *)
EXTENDS Meshes, TLC
CONSTANTS Grid, Points
VARIABLES ps
S == [o |-> 0, num |-> 8, den |-> 1]
Max == 12
Tris == IF Points = 3 THEN {<<1, 2, 3>>} ELSE {<<1, 2, 3>>, <<1, 3, 4>>}
Cr(f, t) == Cross2(f[t[1]], f[t[2]], f[t[3]])
Rounded == [i \in 1 .. Len(ps) |-> <<Round(ps[i][1], 8), Round(ps[i][2], 8)>>]
Positive == \A t \in Tris : Cr(ps, t) >= 0
Flipped == \E t \in Tris : Cr(Rounded, t) < 0
\* canonical: nothing to the left of the first point, so that rotations are not repeated
Canonical(q) == \A i \in 1 .. Len(ps) : ps[i][1] <= q[1]
Init == ps = <<>>
Next == Len(ps) < Points /\ \E x \in Grid, y \in Grid : (Len(ps) = 0 \/ x >= ps[1][1]) = TRUE /\ ps' = Append(ps, <<x, y>>)
Full == Len(ps) = Points
RoundedNearest == \A i \in 1 .. Len(ps) : \A c \in 1 .. 2 : Nearest(S, Max, Rounded[i][c], ps[i][c])
Fix == (Full /\ Points = 3 /\ Positive /\ Flipped) => Fixable(S, S, Max, ps[1], ps[2], ps[3])
\* corrections stay within a step of where the point was
CornersWithin == \A i \in 1 .. Len(ps) : \A c \in 1 .. 2 : \A k \in Corners(S, Max, ps[i][c]) : Within(S, Max, k, ps[i][c])
Text == LET f[i \in 0 .. Len(ps)] == IF i = 0 THEN "" ELSE f[i - 1] \o ToString(ps[i][1]) \o " " \o ToString(ps[i][2]) \o ";" IN f[Len(ps)]
Emit == (Full /\ Positive /\ Flipped) => PrintT("BEH " \o Text)
Spec == Init /\ [][Next]_ps
=============================================================================
