------------------------------ MODULE MC_Vectors ------------------------------
\* On a small grid: the defining identities, and that containment does not depend on winding.
EXTENDS Vectors, TLC
CONSTANT C
VARIABLES a, b, c, p
P == (0..C) \X (0..C)
Init == a \in P /\ b \in P /\ c \in P /\ p \in P
Next == FALSE /\ UNCHANGED <<a, b, c, p>>
Lagrange == Dot(a, b) * Dot(a, b) + Cross(a, b) * Cross(a, b) = Norm(a) * Norm(b)
Orthogonal == Dot(a, Orth(a)) = 0 /\ Cross(a, Orth(a)) = Norm(a)
LerpProjects == \A r \in {-8, 0, 4, 16} : LET x == Project(Times(16, a), Times(16, b), Lerp16(a, b, r)) IN 16 * x[1] = r * x[2]
TurnCycles == Turn(a, b, c) = Turn(b, c, a) /\ Turn(a, b, c) = 0 - Turn(b, a, c)
Winding == InTri(p, a, b, c) = InTri(p, b, a, c) /\ InTri(p, a, b, c) = InTri(p, c, a, b)
\* containment is being no farther on any side: the areas of the three triangles with p add up to the whole
AreasAdd == Turn(a, b, c) # 0 => InTri(p, a, b, c) = (Abs(Turn(a, b, p)) + Abs(Turn(b, c, p)) + Abs(Turn(c, a, p)) = Abs(Turn(a, b, c)))
Emit == PrintT("BEH tri " \o ToString(a[1]) \o " " \o ToString(a[2]) \o " " \o ToString(b[1]) \o " " \o ToString(b[2]) \o " " \o ToString(c[1]) \o " " \o ToString(c[2]) \o " " \o ToString(p[1]) \o " " \o ToString(p[2]) \o ";")
=============================================================================
