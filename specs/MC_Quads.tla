------------------------------ MODULE MC_Quads ------------------------------
\* All histories of setters over quarter-turn rotations: normalization never changes the shape, and joining is the smallest
\* extension along the axes.
EXTENDS Quads, TLC, FiniteSets
CONSTANT Depth
VARIABLES q, want, hist, n     \* want: what the setters asked for, not normalized
Cos(r) == LET m == ((r % 4) + 4) % 4 IN IF m = 0 THEN CS ELSE IF m = 2 THEN 0 - CS ELSE 0
Sin(r) == LET m == ((r % 4) + 4) % 4 IN IF m = 1 THEN CS ELSE IF m = 3 THEN 0 - CS ELSE 0
Set4(p) == {Corner8(p, i) : i \in 1..4}
Rec(cx, cy, w, h, c, s, k) == [cx |-> cx, cy |-> cy, w |-> w, h |-> h, c |-> c, s |-> s, k |-> k]
Init == q = Make(0, 0, 0, 0, CS, 0, 0) /\ want = q /\ hist = "" /\ n = 0
RECURSIVE Text(_, _)
Text(a, i) == IF i > Len(a) THEN "" ELSE " " \o ToString(a[i]) \o Text(a, i + 1)
Do(op, a, w) == want' = w /\ q' = Normal(w) /\ n' = n + 1 /\ hist' = hist \o op \o Text(a, 1) \o ";"
Joined(p, x, y) == LET w == JoinW(p, x, y) \div (4 * CS)  h == JoinH(p, x, y) \div (4 * CS)  sg(z) == IF z < 0 THEN -1 ELSE 1
                       du == sg(Along4(p, x, y)) * (w - p.w)  dv == sg(Across(p, x, y)) * (h - Abs(p.h))       \* twice the centre's shift
                   IN [p EXCEPT !.w = w, !.h = sg(p.h) * h, !.cx = @ + (4 * du * p.c + dv * (p.k * p.c - 4 * p.s)) \div (8 * CS), !.cy = @ + (4 * du * p.s + dv * (p.k * p.s + 4 * p.c)) \div (8 * CS)]
Next == n < Depth /\
  \/ \E w \in {-16, 0, 8}, h \in {-8, 0, 16}, r \in {-1, 0, 1, 2}, k \in {0, 4} : Do("make", <<4, -4, w, h, r, k>>, Rec(4, -4, w, h, Cos(r), Sin(r), k))
  \/ \E w \in {-8, 0, 16} : Do("setWidth", <<w>>, [q EXCEPT !.w = w])
  \/ \E h \in {-16, 0, 8} : Do("setHeight", <<h>>, [q EXCEPT !.h = h])
  \/ \E r \in {-3, 0, 1, 2, 5} : Do("setRotation", <<r>>, [q EXCEPT !.c = Cos(r), !.s = Sin(r)])
  \/ \E k \in {-8, 0, 4} : Do("setShear", <<k>>, [q EXCEPT !.k = k])
  \/ \E x \in {-8, 4} : Do("setCenter", <<x, 8>>, [q EXCEPT !.cx = x, !.cy = 8])
  \/ \E x \in {-16, 8}, y \in {-8, 0, 32} : Do("join", <<x, y>>, Joined(q, x, y))
Spec == Init /\ [][Next]_<<q, want, hist, n>>
Upright == q.w >= 0
SameShape == Set4(q) = Set4(want)
\* containment is that of the corners' hull: checked at the corners themselves and just outside them
HasCorners == \A i \in 1..4 : LET p == Corner8(q, i) IN (p[1] % (8 * CS) = 0 /\ p[2] % (8 * CS) = 0) => Has(q, p[1] \div (8 * CS), p[2] \div (8 * CS))
JoinsAll == [][\A x \in {-16, 8}, y \in {-8, 0, 32} : LET j == Joined(q, x, y) IN Has(j, x, y) /\ (\A i \in 1..4 : LET p == Corner8(q, i) IN (p[1] % (8 * CS) = 0 /\ p[2] % (8 * CS) = 0) => Has(j, p[1] \div (8 * CS), p[2] \div (8 * CS)))]_<<q, want, hist, n>>
Emit == n = Depth => PrintT("BEH " \o hist)
=============================================================================
