----------------------------- MODULE Tessellation -----------------------------
(* The interior of closed contours, by winding numbers, for integer points; and what triangles that cover it must look like at sample points clear of the outline. *)
EXTENDS Integers, Sequences, FiniteSets
AbsT(x) == IF x < 0 THEN -x ELSE x
TurnT(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Next1(c, i) == c[(i % Len(c)) + 1]
\* how often the edge a-b goes around s: upwards to its right counts 1, downwards -1
Step(a, b, s) == IF a[2] <= s[2] /\ b[2] > s[2] /\ TurnT(a, b, s) > 0 THEN 1 ELSE IF b[2] <= s[2] /\ a[2] > s[2] /\ TurnT(a, b, s) < 0 THEN -1 ELSE 0
RECURSIVE Wind(_, _, _)
Wind(c, s, i) == IF i > Len(c) THEN 0 ELSE Step(c[i], Next1(c, i), s) + Wind(c, s, i + 1)
RECURSIVE Winding(_, _)
Winding(cs, s) == IF cs = <<>> THEN 0 ELSE Wind(Head(cs), s, 1) + Winding(Tail(cs), s)
Inside(w, rule) == CASE rule = "nonzero" -> w # 0 [] rule = "odd" -> w % 2 # 0 [] rule = "positive" -> w > 0 [] rule = "negative" -> w < 0 [] rule = "two" -> AbsT(w) >= 2
\* s is at least a quarter away from the line through every edge that it is beside
Clear(cs, s) == \A k \in 1 .. Len(cs) : \A i \in 1 .. Len(cs[k]) : LET a == cs[k][i] b == Next1(cs[k], i) d == AbsT(b[1] - a[1]) + AbsT(b[2] - a[2]) IN
  IF d = 0 THEN AbsT(s[1] - a[1]) + AbsT(s[2] - a[2]) >= 1
  ELSE \/ 4 * AbsT(TurnT(a, b, s)) > d \/ s[1] + 1 < (IF a[1] < b[1] THEN a[1] ELSE b[1]) \/ s[1] - 1 > (IF a[1] < b[1] THEN b[1] ELSE a[1])
       \/ s[2] + 1 < (IF a[2] < b[2] THEN a[2] ELSE b[2]) \/ s[2] - 1 > (IF a[2] < b[2] THEN b[2] ELSE a[2])
\* a sample x: at x.s, at least x.lo triangles contain it for certain, at most x.hi do
SampleOK(cs, rule, x) == Clear(cs, x.s) => IF Inside(Winding(cs, x.s), rule) THEN x.lo <= 1 /\ x.hi >= 1 ELSE x.lo = 0 /\ x.hi = 0
HasInside(cs, rule, xs) == \E i \in 1 .. Len(xs) : Clear(cs, xs[i].s) /\ Inside(Winding(cs, xs[i].s), rule)
OnALine(c) == \A i, j \in 1 .. Len(c) : TurnT(c[1], c[i], c[j]) = 0
Joined(cs) == LET f[k \in 0 .. Len(cs)] == IF k = 0 THEN <<>> ELSE f[k - 1] \o cs[k] IN f[Len(cs)]
\* vertices are the input points and then new ones; every new one is on a triangle, and was told as neighbours only input points with which it shares a triangle
StructureOK(cs, vs, ts, new) ==
  LET n == Len(Joined(cs)) m == n + Len(new) IN
  /\ Len(vs) = n /\ vs = Joined(cs)
  /\ \A i \in 1 .. Len(ts) : \A k \in 1 .. 3 : ts[i][k] \in 0 .. m - 1
  /\ \A i \in 1 .. Len(ts) : Cardinality({ts[i][k] : k \in 1 .. 3}) = 3
  /\ \A j \in 1 .. Len(new) : LET id == n + j - 1  mine == {i \in 1 .. Len(ts) : \E k \in 1 .. 3 : ts[i][k] = id} IN
       /\ mine # {} /\ Len(new[j]) = 4
       /\ \A k \in 1 .. 4 : new[j][k] = -1 \/ (new[j][k] \in 0 .. n - 1 /\ \E i \in mine : \E c \in 1 .. 3 : ts[i][c] = new[j][k])
       \* the two others of one of its triangles come first, going round, and then those on the far sides of its two edges there, as far as they are input points
       /\ \E i \in mine : LET at == CHOOSE c \in 1 .. 3 : ts[i][c] = id  u == ts[i][(at % 3) + 1] v == ts[i][((at + 1) % 3) + 1]
                              Input(x) == IF x < n THEN x ELSE -1
                              Across(x) == {ts[k][c] : k \in {m2 \in 1 .. Len(ts) : m2 # i /\ (\E c \in 1 .. 3 : ts[m2][c] = id) /\ (\E c \in 1 .. 3 : ts[m2][c] = x)}, c \in 1 .. 3} \ {id, x}
                              Is(y, x) == (Across(x) = {} /\ y = -1) \/ \E z \in Across(x) : y = Input(z)
                          IN new[j][1] = Input(u) /\ new[j][2] = Input(v) /\ Is(new[j][3], v) /\ Is(new[j][4], u)
=============================================================================
