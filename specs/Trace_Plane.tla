---------------------------- MODULE Trace_Plane ----------------------------
EXTENDS PlaneGeometry, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
K == 262144        \* 512^2: distances are reported in 1/512 of a grid unit
Range(s) == {s[i] : i \in 1..Len(s)}
\* What a sign of Gap says about two shapes of which `exact` tells whether their coordinates are known exactly.
Verdicts(g, exact) == IF g > 0 THEN {FALSE} ELSE IF g < 0 \/ exact THEN {TRUE} ELSE {TRUE, FALSE}
\* Where coordinates are only known up to rounding, "on the line of a degenerate shape" is a matter of rounding too: a vertex
\* beyond the end of a collapsed triangle may be found inside what rounding makes of that triangle.
Collinear(V) == \E i \in 1..Len(V) : V[i] # V[1] /\ \A j \in 1..Len(V) : Cross(Sub(V[i], V[1]), Sub(V[j], V[1])) = 0
Along(A, B) == Collinear(A) /\ LET i == CHOOSE i \in 1..Len(A) : A[i] # A[1]
                              IN \E k \in 1..Len(B) : Cross(Sub(A[i], A[1]), Sub(B[k], A[1])) = 0
\* Likewise a vertex on the other shape's boundary is inside or outside by rounding, and the tests may disagree about it.
OnEdge(A, B) == \E i \in 1..Len(A), j \in 1..Len(B) : OnSeg(A[i], B[j], B[(j % Len(B)) + 1])
Sep(A, B, exact) == LET g == Gap(A, B)
                    IN IF ~exact /\ g > 0 /\ (Along(A, B) \/ Along(B, A)) THEN 0
                       ELSE IF ~exact /\ g < 0 /\ (OnEdge(A, B) \/ OnEdge(B, A)) THEN 0 ELSE g
MinGap(P, Q, exact) == SetMin({Sep(a, b, exact) : a \in P, b \in Q})
Pow2(n) == Abs(n) \in {1, 2, 4, 8, 16}
Diag(m) == m[2] = 0 /\ m[4] = 0 /\ m[1] > 0
\* the shapes that a list of triangles becomes under m
Tri(t) == << <<t[1], t[2]>>, <<t[3], t[4]>>, <<t[5], t[6]>> >>
Parts(T, m) == {Apply(m, Tri(T[i])) : i \in 1..Len(T)}
Flatten(T) == [k \in 1..(3 * Len(T)) |-> Tri(T[((k - 1) \div 3) + 1])[((k - 1) % 3) + 1]]
\* Known finding: a mesh collapsed by a singular transform is taken for the whole segment that its triangles span.
HullParts(T, m) == IF Det(m) = 0 THEN {Apply(m, Flatten(T))} ELSE Parts(T, m)

OKPair(e) == LET x == Exact(e.a) /\ Exact(e.b) IN Range(e.is) \subseteq Verdicts(Sep(Verts(e.a), Verts(e.b), x), x)
OKDist(e) ==
  LET A == Verts(e.a)  B == Verts(e.b)  g == Gap(A, B)  E == SqDist(A, B, K)  x == Exact(e.a) /\ Exact(e.b)  s == Sep(A, B, x)
      far == Sep(A, B, x) > 0
  IN /\ \A D \in Range(e.d) : IF g <= 0 THEN D = 0 ELSE (D = 0 /\ ~far) \/ (D > 0 /\ Abs(D * D - E) <= 2 * D + 2)
     /\ far => \A z \in Range(e.z) : ~z
     /\ (s < 0 \/ (g = 0 /\ x)) /\ ~PointLike(A) /\ ~PointLike(B) => \A z \in Range(e.z) : z
     /\ e.sym
OKMeet(e) ==                       \* a mesh under m against a shape, or against a mesh under qm
  LET mesh == e.q = <<>>
      P == Parts(e.tris, e.m)  H == HullParts(e.tris, e.m)
      Q == IF mesh THEN Parts(e.qt, e.qm) ELSE {Verts(e.q)}
      G == IF mesh THEN HullParts(e.qt, e.qm) ELSE {Verts(e.q)}
      exact == IF mesh THEN Diag(e.m) /\ Diag(e.qm) /\ Pow2(Det(e.m)) /\ Pow2(Det(e.qm)) /\ Pow2(e.m[1]) /\ Pow2(e.qm[1])
               ELSE Pow2(Det(e.m)) /\ Exact(e.q) /\ (e.q[1] \in {3, 4} => Diag(e.m) /\ Pow2(e.m[1]))
  IN IF P = {} \/ (mesh /\ Q = {}) THEN ~e.r
     ELSE e.r \in Verdicts(MinGap(P, Q, exact), exact) \cup (IF H # P \/ G # Q THEN Verdicts(MinGap(H, G, exact), exact) ELSE {})
\* Which triangles a query touches: {TRUE}, {FALSE} or undetermined.
Touch(e, Q, exact) == [i \in 1..Len(e.tris) |-> LET t == Tri(e.tris[i]) IN Verdicts(SetMin({Sep(t, q, exact) : q \in Q}), exact)]
QParts(e) == IF e.q = <<>> THEN Parts(e.qt, e.m) ELSE {Apply(e.m, Verts(e.q))}
QHull(e) == IF e.q = <<>> THEN HullParts(e.qt, e.m) ELSE {Apply(e.m, Verts(e.q))}
QExact(e) == IF e.q = <<>> THEN Diag(e.m) /\ Pow2(Det(e.m)) /\ Pow2(e.m[1])
             ELSE Exact(e.q) /\ (e.q[1] \in {3, 4} => Diag(e.m) /\ Pow2(Det(e.m)) /\ Pow2(e.m[1]))
Empty(e) == e.tris = <<>> \/ (e.q = <<>> /\ e.qt = <<>>)
Candidates(e) == {Touch(e, Q, QExact(e)) : Q \in {QParts(e), QHull(e)}}
OKVisit(e) ==
  LET S == Range(e.seen)  n == Len(e.seen)
  IN /\ Cardinality(S) = n /\ S \subseteq 1..Len(e.tris) \cup {0} /\ 0 \notin S
     /\ IF Empty(e) THEN n = 0
        ELSE /\ e.after > 0 => n <= e.after
             /\ \E touch \in Candidates(e) :
                  /\ \A i \in S : TRUE \in touch[i]
                  /\ (e.after = 0 \/ n < e.after) => \A i \in 1..Len(e.tris) : touch[i] = {TRUE} => i \in S
\* Coverage as 1/16ths of a doubled area unit; thresholds as num/den.
Total2(T) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN 0 ELSE Area2(Tri(T[i])) + f(i - 1) IN f(Len(T))
SumOf(T, P(_)) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN 0 ELSE (IF P(i) THEN Area2(Tri(T[i])) ELSE 0) + f(i - 1) IN f(Len(T))
OKCover(e) ==
  LET total == Total2(e.tris)
  IN /\ ~e.nan /\ e.unit
     /\ IF Empty(e) \/ total = 0 THEN e.cov = 0 /\ (e.tris = <<>> => \A k \in 1..Len(e.thr) : ~e.thr[k][3]) /\ (\A k \in 1..Len(e.thr) : e.thr[k][1] >= 0 => ~e.thr[k][3])
        ELSE \E touch \in Candidates(e) :
           LET Sure(i) == touch[i] = {TRUE}  May(i) == TRUE \in touch[i]
               lo == SumOf(e.tris, Sure)  hi == SumOf(e.tris, May)
           IN /\ 16 * lo - 1 <= e.cov /\ e.cov <= 16 * hi + 1
              /\ lo = hi => e.cov = 16 * lo
              /\ \A k \in 1..Len(e.thr) : LET x == e.thr[k] IN /\ (lo * x[2] > x[1] * total) => x[3]
                                                               /\ (hi * x[2] <= x[1] * total) => ~x[3]
\* A mesh of w x h unit cells, cut into two triangles each, too large to be listed: the triangles that a query touches.
CellTri(i, j) == { << <<i, j>>, <<i + 1, j>>, <<i + 1, j + 1>> >>, << <<i, j>>, <<i + 1, j + 1>>, <<i, j + 1>> >> }
OKGrid(e) ==
  LET Q == Verts(e.q)
      xs == {Q[k][1] : k \in 1..Len(Q)}  ys == {Q[k][2] : k \in 1..Len(Q)}
      near == UNION {CellTri(i, j) : i \in Max2(0, SetMin(xs) - 1)..Min2(e.w - 1, SetMax(xs)), j \in Max2(0, SetMin(ys) - 1)..Min2(e.h - 1, SetMax(ys))}
      want == {t \in near : Meet(t, Q)}
      got == {Tri(e.seen[k]) : k \in 1..Len(e.seen)}
  IN /\ Len(e.seen) = Cardinality(got)
     /\ {Range(t) : t \in got} = {Range(t) : t \in want}
     /\ Cardinality(got) = Cardinality(want)
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "pair" -> OKPair(e)
    [] e.op = "dist" -> OKDist(e)
    [] e.op = "meet" -> OKMeet(e)
    [] e.op = "visit" -> OKVisit(e)
    [] e.op = "cover" -> OKCover(e)
    [] e.op = "grid" -> OKGrid(e)
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ OK(Trace[l]) = TRUE /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
