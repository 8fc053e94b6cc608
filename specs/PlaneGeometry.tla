--------------------------- MODULE PlaneGeometry ---------------------------
(* Closed convex plane shapes as point sets. A shape is a sequence of integers:                                            *)
(*   <<0,x,y>> point   <<1,x,y,x,y>> segment   <<2,x,y,x,y,x,y>> triangle   <<3,xmin,ymin,xmax,ymax>> rectangle            *)
(*   <<4,cx,cy,k,m,p,q,r,s>> quadrilateral with centre c, semi-axes k(p,q) and m(s*p-q, s*q+p), p^2+q^2 = r^2               *)
(* all possibly degenerate. Vertices are integers on a common grid, so every question below is integer arithmetic.         *)
(* Two convex shapes meet iff the origin lies in the hull of the differences of their vertices (the declarative            *)
(* definition, MeetDecl); the separating-axis form (Gap) is what traces are checked with, and MC_Plane checks they agree.  *)
EXTENDS Integers, Sequences, FiniteSets
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Abs(n) == IF n < 0 THEN -n ELSE n
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
SemiU(s) == <<s[4] * s[6], s[4] * s[7]>>
SemiV(s) == <<s[5] * (s[9] * s[6] - s[7]), s[5] * (s[9] * s[7] + s[6])>>
Verts(s) ==
  CASE s[1] = 0 -> << <<s[2], s[3]>> >>
    [] s[1] = 1 -> << <<s[2], s[3]>>, <<s[4], s[5]>> >>
    [] s[1] = 2 -> << <<s[2], s[3]>>, <<s[4], s[5]>>, <<s[6], s[7]>> >>
    [] s[1] = 3 -> << <<s[2], s[3]>>, <<s[4], s[3]>>, <<s[4], s[5]>>, <<s[2], s[5]>> >>
    [] OTHER -> LET c == <<s[2], s[3]>>  u == SemiU(s)  v == SemiV(s)
                IN << Sub(Sub(c, u), v), Sub(Add(c, u), v), Add(Add(c, u), v), Add(Sub(c, u), v) >>
\* A quadrilateral at an angle has no exact representation: the code knows its corners only up to rounding.
Exact(s) == s[1] # 4 \/ (s[6] = 1 /\ s[7] = 0)
PointLike(V) == \A i \in 1..Len(V) : V[i] = V[1]
Sign(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0

\* ---- declarative definition ----
OnSeg(p, a, b) == Cross(Sub(b, a), Sub(p, a)) = 0 /\ Dot(Sub(p, a), Sub(p, b)) <= 0
InTri(p, a, b, c) ==
  IF Cross(Sub(b, a), Sub(c, a)) = 0 THEN OnSeg(p, a, b) \/ OnSeg(p, b, c) \/ OnSeg(p, c, a)
  ELSE LET d == {Sign(Cross(Sub(b, a), Sub(p, a))), Sign(Cross(Sub(c, b), Sub(p, b))), Sign(Cross(Sub(a, c), Sub(p, c)))}
       IN ~ ({-1, 1} \subseteq d)
Diffs(A, B) == {Sub(A[i], B[j]) : i \in 1..Len(A), j \in 1..Len(B)}
InHull(p, D) == \E a, b, c \in D : InTri(p, a, b, c)
MeetDecl(A, B) == InHull(<<0, 0>>, Diffs(A, B))

\* ---- separating axes ----
\* Largest signed separation (times the axis's length) over the candidate axes: > 0 iff disjoint, < 0 iff they overlap in more
\* than their boundaries along every axis.
Edges(V) == {Sub(V[(i % Len(V)) + 1], V[i]) : i \in 1..Len(V)}
Axes(A, B) == {e \in UNION {{e, <<-e[2], e[1]>>} : e \in Edges(A) \cup Edges(B) \cup {<<1, 0>>}} : e # <<0, 0>>}
Proj(V, x) == {Dot(V[i], x) : i \in 1..Len(V)}
Gap(A, B) == LET sep(x) == LET a == Proj(A, x)  b == Proj(B, x) IN Max2(SetMin(a) - SetMax(b), SetMin(b) - SetMax(a))
             IN SetMax({sep(x) : x \in Axes(A, B)})
Meet(A, B) == Gap(A, B) <= 0
Contains(V, p) == Meet(V, <<p>>)

\* ---- distance ----
\* floor(2^K * squared distance) from the origin to the segment a-b (K chosen so that everything fits in 32 bits)
ToSeg(a, b, K) ==
  LET d == Sub(b, a)  n == Dot(d, d)  t == 0 - Dot(a, d)
  IN IF n = 0 \/ t <= 0 THEN Dot(a, a) * K
     ELSE IF t >= n THEN Dot(b, b) * K
     ELSE LET c == Cross(a, b) * Cross(a, b) IN (c \div n) * K + ((c % n) * K) \div n
\* floor(K * squared distance) between two shapes: the distance of the origin from the hull of the differences
SqDist(A, B, K) == IF Meet(A, B) THEN 0 ELSE LET D == Diffs(A, B) IN SetMin({ToSeg(a, b, K) : a \in D, b \in D})

\* ---- transforms: <<a,b,c,d,e,f>> maps (x,y) to (ax+by+c, dx+ey+f) ----
ApplyPt(m, p) == <<m[1] * p[1] + m[2] * p[2] + m[3], m[4] * p[1] + m[5] * p[2] + m[6]>>
Apply(m, V) == [i \in 1..Len(V) |-> ApplyPt(m, V[i])]
Det(m) == m[1] * m[5] - m[2] * m[4]
Inv2(m) == <<m[5], 0 - m[2], 0, 0 - m[4], m[1], 0>>      \* adjugate of the linear part: the inverse times Det
Identity == <<1, 0, 0, 0, 1, 0>>
IsTriangle(s) == s[1] = 2
Area2(V) == Abs(Cross(Sub(V[2], V[1]), Sub(V[3], V[1])))
=============================================================================
