------------------------------ MODULE Polylines ------------------------------
(* Processing a hand-drawn closed polyline: loose ends are cut back to the first / last crossing, unless they almost touch the line further along, in which case *)
(* they are joined to it. Decided for polylines with axis-parallel segments between integer points, where lengths, crossings and nearest points are integers.    *)
(* Parameters: walk (least walking distance), conn (largest gap), ratio and trim, the latter three in quarters. Segment i goes from p[i] to p[i + 1]; a place on *)
(* the line is <<segment, offset>>, offset in units.                                                                                                             *)
EXTENDS Integers, Sequences, FiniteSets
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Segments(p) == 1 .. Len(p) - 1
Rectilinear(p) == \A i \in Segments(p) : p[i][1] = p[i + 1][1] \/ p[i][2] = p[i + 1][2]
NoStops(p) == \A i \in Segments(p) : p[i] # p[i + 1]
Length(p, i) == AbsI(p[i + 1][1] - p[i][1]) + AbsI(p[i + 1][2] - p[i][2])
Dir(p, i) == <<Sgn(p[i + 1][1] - p[i][1]), Sgn(p[i + 1][2] - p[i][2])>>
Place(p, at) == <<p[at[1]][1] + at[2] * Dir(p, at[1])[1], p[at[1]][2] + at[2] * Dir(p, at[1])[2]>>
Along(p, i, x) == (x[1] - p[i][1]) * Dir(p, i)[1] + (x[2] - p[i][2]) * Dir(p, i)[2]        \* how far along segment i (its line) x is
Clamp(x, lo, hi) == MaxI(lo, MinI(x, hi))
Nearest(p, i, x) == Clamp(Along(p, i, x), 0, Length(p, i))
Gap2(p, i, x) == LET q == Place(p, <<i, Nearest(p, i, x)>>) IN (q[1] - x[1]) * (q[1] - x[1]) + (q[2] - x[2]) * (q[2] - x[2])
RECURSIVE Sum(_, _, _)
Sum(p, i, j) == IF i > j THEN 0 ELSE Length(p, i) + Sum(p, i + 1, j)
Walked(p, at) == Sum(p, 1, at[1] - 1) + at[2]
Left(p, at) == Sum(p, 1, Len(p) - 1) - Walked(p, at)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* ------------------------------------------------------------------ crossings
Parallel(p, i, j) == Dir(p, i)[1] * Dir(p, j)[2] = Dir(p, i)[2] * Dir(p, j)[1]
OnOneLine(p, i, j) == Parallel(p, i, j) /\ (p[j][1] - p[i][1]) * Dir(p, i)[2] = (p[j][2] - p[i][2]) * Dir(p, i)[1]
Overlap(p, i, j) == OnOneLine(p, i, j) /\ LET a == Along(p, i, p[j]) b == Along(p, i, p[j + 1]) IN MaxI(a, b) >= 0 /\ MinI(a, b) <= Length(p, i)
Touch(p, i, j) == OnOneLine(p, i, j) /\ LET a == Along(p, i, p[j]) b == Along(p, i, p[j + 1]) IN MaxI(a, b) = 0 \/ MinI(a, b) = Length(p, i)
Cross(p, i, j) == ~Parallel(p, i, j) /\ LET a == Along(p, i, p[j]) b == Along(p, j, p[i]) IN a \in 0 .. Length(p, i) /\ b \in 0 .. Length(p, j)
\* where on i it meets j (the first common point)
Meets(p, i, j) == IF Parallel(p, i, j) THEN MaxI(0, MinI(Along(p, i, p[j]), Along(p, i, p[j + 1]))) ELSE Along(p, i, p[j])
Pairs(p) == {<<i, j>> \in Segments(p) \X Segments(p) : i + 1 < j /\ (Overlap(p, i, j) \/ Cross(p, i, j))}
\* running along itself leaves open which of the common points counts
Plain(p) == Rectilinear(p) /\ NoStops(p) /\ \A x \in Pairs(p) : Overlap(p, x[1], x[2]) => Touch(p, x[1], x[2])
Crossings(p) == {<<x[1], Meets(p, x[1], x[2])>> : x \in Pairs(p)} \cup {<<x[2], Meets(p, x[2], x[1])>> : x \in Pairs(p)}
Has(p) == Pairs(p) # {}
Least(S) == CHOOSE a \in S : \A b \in S : ~Before(b, a)
Most(S) == CHOOSE a \in S : \A b \in S : ~Before(a, b)
First(p) == Least({<<x[1], Meets(p, x[1], x[2])>> : x \in Pairs(p)})
Last(p) == Most({<<x[2], Meets(p, x[2], x[1])>> : x \in Pairs(p)})
None == <<0, 0>>
\* f: whether p crosses itself, and where first and last
Facts(p) == LET S == Pairs(p) IN IF S = {} THEN [has |-> FALSE, first |-> None, last |-> None]
            ELSE [has |-> TRUE, first |-> Least({<<x[1], Meets(p, x[1], x[2])>> : x \in S}), last |-> Most({<<x[2], Meets(p, x[2], x[1])>> : x \in S})]
\* ------------------------------------------------------------------ joining an end to the line
\* a * a >= (r / 4)^2 * d2 ?   "yes", "no", or "either" when equal
Cmp(a, r, d2) == LET x == 16 * a * a y == r * r * d2 IN IF x > y THEN "yes" ELSE IF x < y THEN "no" ELSE "either"
And(a, b) == IF "no" \in {a, b} THEN "no" ELSE IF "either" \in {a, b} THEN "either" ELSE "yes"
Joinable(p, f, q, i, first) ==
  LET x == IF first THEN p[1] ELSE p[Len(p)]  at == <<i, Nearest(p, i, x)>>  d2 == Gap2(p, i, x)
      walk == IF first THEN Walked(p, at) ELSE Left(p, at)
      gap == IF 16 * d2 < q.conn * q.conn THEN "yes" ELSE IF 16 * d2 > q.conn * q.conn THEN "no" ELSE "either"
      trim == IF ~f.has \/ d2 = 0 THEN "yes" ELSE Cmp(IF first THEN Walked(p, f.first) ELSE Left(p, f.last), q.trim, d2)
  IN And(gap, And(IF walk < q.walk THEN "no" ELSE IF walk > q.walk \/ walk = 0 THEN "yes" ELSE "either", And(IF d2 = 0 THEN "yes" ELSE Cmp(walk, q.ratio, d2), trim)))
Candidates(p, first) == IF first THEN {i \in Segments(p) : i > 2} ELSE {i \in Segments(p) : i < Len(p) - 2}
\* the places to which the end may be joined: the nearest of those that qualify
Joins(p, f, q, first) ==
  LET x == IF first THEN p[1] ELSE p[Len(p)]
      must == {i \in Candidates(p, first) : Joinable(p, f, q, i, first) = "yes"}
      may == {i \in Candidates(p, first) : Joinable(p, f, q, i, first) # "no"}
  IN {<<i, Nearest(p, i, x)>> : i \in {j \in may : \A m \in must : Gap2(p, j, x) <= Gap2(p, m, x)}} \cup (IF must = {} THEN {None} ELSE {})
\* ------------------------------------------------------------------ the outcome
\* front: the place where the line begins (c1 = None), or the place to which its first point is joined; likewise back
OutcomeOf(p, f, c1, c2) ==
  IF ~f.has /\ c1 = None /\ c2 = None THEN p ELSE
  LET first == IF c1 = None /\ c2 # None /\ (~f.has \/ Before(c2, f.first)) THEN c2 ELSE IF f.has THEN f.first ELSE None
      last == IF c2 = None /\ c1 # None /\ (~f.has \/ Before(f.last, c1)) THEN c1 ELSE IF f.has THEN f.last ELSE None
      head == IF c1 # None THEN Place(p, c1) ELSE Place(p, first)
      tail == IF c2 # None THEN Place(p, c2) ELSE Place(p, last)
      lo == IF c1 # None THEN 1 ELSE first[1] + 1
      hi == IF c2 # None THEN Len(p) ELSE last[1]
  IN <<head>> \o SubSeq(p, lo, hi) \o <<tail>>
Outcome(p, c1, c2) == OutcomeOf(p, Facts(p), c1, c2)
RECURSIVE Squeeze(_)
Squeeze(s) == IF Len(s) <= 1 THEN s ELSE IF s[1] = s[2] THEN Squeeze(Tail(s)) ELSE <<s[1]>> \o Squeeze(Tail(s))
Outcomes(p, q) == LET f == Facts(p) IN {Squeeze(OutcomeOf(p, f, c1, c2)) : c1 \in Joins(p, f, q, TRUE), c2 \in Joins(p, f, q, FALSE)}
\* ------------------------------------------------------------------ cutting at crossings, for polylines in any direction; a place is <<segment, <<numerator, denominator>>>>
Vec2(p, i) == <<p[i + 1][1] - p[i][1], p[i + 1][2] - p[i][2]>>
Det2(u, v) == u[1] * v[2] - u[2] * v[1]
Dot2(u, v) == u[1] * v[1] + u[2] * v[2]
Diff(p, i, j) == <<p[j][1] - p[i][1], p[j][2] - p[i][2]>>
Frac(n, d) == IF d < 0 THEN <<-n, -d>> ELSE <<n, d>>
InUnit(f) == 0 <= f[1] /\ f[1] <= f[2]
Less(f, g) == f[1] * g[2] < g[1] * f[2]
Slanted(p, i, j) == Det2(Vec2(p, i), Vec2(p, j)) # 0
\* where along i it is met by the line of j; for parallel segments on one line, where j's ends are
At1(p, i, j) == Frac(Det2(Diff(p, i, j), Vec2(p, j)), Det2(Vec2(p, i), Vec2(p, j)))
End1(p, i, k) == <<Dot2(Diff(p, i, k), Vec2(p, i)), Dot2(Vec2(p, i), Vec2(p, i))>>
OneLine(p, i, j) == ~Slanted(p, i, j) /\ Det2(Diff(p, i, j), Vec2(p, i)) = 0
MeetsG(p, i, j) == IF Slanted(p, i, j) THEN InUnit(At1(p, i, j)) /\ InUnit(At1(p, j, i))
                   ELSE OneLine(p, i, j) /\ LET a == End1(p, i, j) b == End1(p, i, j + 1) IN MaxI(a[1], b[1]) >= 0 /\ MinI(a[1], b[1]) <= a[2]
TouchG(p, i, j) == LET a == End1(p, i, j) b == End1(p, i, j + 1) IN MaxI(a[1], b[1]) = 0 \/ MinI(a[1], b[1]) = a[2]
WhereG(p, i, j) == IF Slanted(p, i, j) THEN At1(p, i, j) ELSE LET a == End1(p, i, j) b == End1(p, i, j + 1) IN IF MaxI(a[1], b[1]) = 0 THEN <<0, a[2]>> ELSE <<a[2], a[2]>>
PairsG(p) == {<<i, j>> \in Segments(p) \X Segments(p) : i + 1 < j /\ MeetsG(p, i, j)}
PlainG(p) == NoStops(p) /\ \A x \in PairsG(p) : Slanted(p, x[1], x[2]) \/ TouchG(p, x[1], x[2])
BeforeG(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ Less(a[2], b[2]))
FirstG(p) == LET S == {<<x[1], WhereG(p, x[1], x[2])>> : x \in PairsG(p)} IN CHOOSE a \in S : \A b \in S : ~BeforeG(b, a)
LastG(p) == LET S == {<<x[2], WhereG(p, x[2], x[1])>> : x \in PairsG(p)} IN CHOOSE a \in S : \A b \in S : ~BeforeG(a, b)
\* x, in units of 1 / K, is (about) the place a
IsPlace(p, a, x, K) == \A c \in 1 .. 2 : LET n == p[a[1]][c] * a[2][2] + a[2][1] * Vec2(p, a[1])[c] IN AbsI(K * n - x[c] * a[2][2]) <= a[2][2]
IsPoint(q, x, K) == AbsI(K * q[1] - x[1]) <= 1 /\ AbsI(K * q[2] - x[2]) <= 1
\* r (in units of 1 / K) is p cut at its first and last crossing
CutTo(p, r, K) ==
  IF PairsG(p) = {} THEN Len(r) = Len(p) /\ \A i \in 1 .. Len(p) : IsPoint(p[i], r[i], K) ELSE
  LET f == FirstG(p) g == LastG(p) mid == SubSeq(p, f[1] + 1, g[1]) n == Len(mid) IN
  \E a, b \in 0 .. 1 :
    /\ Len(r) = a + n + b /\ \A i \in 1 .. n : IsPoint(mid[i], r[a + i], K)
    /\ IF a = 1 THEN IsPlace(p, f, r[1], K) ELSE n >= 1 /\ IsPlace(p, f, <<K * mid[1][1], K * mid[1][2]>>, K)
    /\ IF b = 1 THEN IsPlace(p, g, r[Len(r)], K) ELSE n >= 1 /\ IsPlace(p, g, <<K * mid[n][1], K * mid[n][2]>>, K)
\* ------------------------------------------------------------------ what every outcome has in common
On(p, x) == \E i \in Segments(p) : Gap2(p, i, x) = 0
\* r is points of p in their order, with at most one other point at either end, which is on p
KeepsOrder(p, r) == \E lo \in 1 .. Len(p) + 1, hi \in 0 .. Len(p) : \E a, b \in 0 .. 1 :
  /\ hi >= lo - 1 /\ Len(r) = a + b + (hi - lo + 1) /\ SubSeq(r, a + 1, a + hi - lo + 1) = SubSeq(p, lo, hi)
  /\ (a = 1 => On(p, r[1])) /\ (b = 1 => On(p, r[Len(r)]))
\* the same where it is known otherwise whether the first and last point of r are on p
KeepsOrderOf(p, r, on1, on2) == \E lo \in 1 .. Len(p) + 1, a, b \in 0 .. 1 : LET n == Len(r) - a - b IN
  /\ n >= 0 /\ lo + n - 1 <= Len(p) /\ SubSeq(r, a + 1, a + n) = SubSeq(p, lo, lo + n - 1) /\ (a = 1 => on1) /\ (b = 1 => on2)
=============================================================================
