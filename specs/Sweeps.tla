------------------------------- MODULE Sweeps -------------------------------
(* What a stroke covers: the area swept by its tip on the way from each of its states to the next, where the tip at a state is a rounded polygon, the hull of one *)
(* to four circles of one radius. A state narrower and lower than the brush epsilon interrupts the stroke. Lengths are whole numbers of 1/32 of the epsilon.      *)
(*                                                                                                                                                               *)
(* Extrusions are the states the stroke is actually built from: a state inside its predecessor adds nothing; one that contains everything since the last         *)
(* interruption replaces it; one that contains its predecessor but not all before it begins a new piece.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
H == INSTANCE Hulls
EPS == 32
AbsI(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* ------------------------------------------------------------------ whole square roots and divisions
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
Root(n) == IF n <= 0 THEN 0 ELSE Newton(n, Min2(n, 46340))
Rounded(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
\* ------------------------------------------------------------------ tips: width, height, roundness in eighths, rotation and slant <<cos, sin, 1>> * whole, pinch in eighths
Turned(p, a) == <<Rounded(p[1] * a[1] - p[2] * a[2], a[3]), Rounded(p[1] * a[2] + p[2] * a[1], a[3])>>
RadiusOf(t) == LET m == t.round * Min2(t.w, t.h) IN IF m < 16 * EPS THEN 0 ELSE m \div 16     \* the radius is roundness times half the shorter side; less than the epsilon is none
CentresOf(t) ==
  LET r == RadiusOf(t)
      x == IF t.w - 2 * r < EPS THEN 0 ELSE (t.w - 2 * r) \div 2
      y == IF t.h - 2 * r < EPS THEN 0 ELSE (t.h - 2 * r) \div 2
      px == IF (8 - t.pinch) * x * 2 < 8 * EPS THEN 0 ELSE ((8 - t.pinch) * x) \div 8
      put(dx, dy) == LET s == Turned(<<0, dy>>, t.slant) IN Turned(<<s[1] + dx, s[2]>>, t.rot) IN
  IF x = 0 /\ y = 0 THEN {<<0, 0>>}
  ELSE IF y = 0 THEN {put(x, 0), put(-x, 0)}
  ELSE IF x = 0 THEN {put(0, y), put(0, -y)}
  ELSE {put(x, y), put(-x, y), put(-px, -y), put(px, -y)}
Nothing(t) == t.w < EPS /\ t.h < EPS
\* ------------------------------------------------------------------ hulls with the lengths of their edges
Lex(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE p \in S : \A q \in S : p = q \/ Lex(p, q) IN <<m>> \o Ordered(S \ {m})
Reversed(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
Chain(S) == LET s == Ordered(S) IN IF Len(s) < 3 THEN s ELSE LET a == H!Scan(<<>>, s) b == H!Scan(<<>>, Reversed(s)) IN SubSeq(a, 1, Len(a) - 1) \o SubSeq(b, 1, Len(b) - 1)
Len2(a, b) == (b[1] - a[1]) * (b[1] - a[1]) + (b[2] - a[2]) * (b[2] - a[2])
\* edges: start, direction, 8 times the length
HullEdges(S) == LET h == Chain(S) n == Len(h) IN TLCEval([i \in 1 .. n |-> LET a == h[i] b == H!At(h, i + 1) IN [a |-> a, d |-> <<b[1] - a[1], b[2] - a[2]>>, n |-> Root(64 * Len2(a, b))]])
\* signed distance of p from the hull with the edges E, negative inside
Along(e, p) == (p[1] - e.a[1]) * e.d[1] + (p[2] - e.a[2]) * e.d[2]
Aside(e, p) == (8 * (e.d[1] * (p[2] - e.a[2]) - e.d[2] * (p[1] - e.a[1]))) \div e.n
FromEdge(e, p) == IF e.n = 0 THEN Root(Len2(e.a, p)) ELSE LET t == Along(e, p) IN
  IF t <= 0 THEN Root(Len2(e.a, p)) ELSE IF t >= e.d[1] * e.d[1] + e.d[2] * e.d[2] THEN Root(Len2(<<e.a[1] + e.d[1], e.a[2] + e.d[2]>>, p)) ELSE AbsI(Aside(e, p))
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
FromHull(E, p) == LET n == Len(E) IN
  IF n >= 3 /\ \A i \in 1 .. n : Aside(E[i], p) >= 0 THEN -Least({Aside(E[i], p) : i \in 1 .. n})
  ELSE Least({FromEdge(E[i], p) : i \in 1 .. n})
\* ------------------------------------------------------------------ sweeps of one tip along pieces of a path (sequences of points): what is well inside, what is well outside
Moved(C, p) == {<<c[1] + p[1], c[2] + p[2]>> : c \in C}
Swept(C, path) == IF Len(path) = 1 THEN <<HullEdges(Moved(C, path[1]))>> ELSE TLCEval([i \in 1 .. Len(path) - 1 |-> HullEdges(Moved(C, path[i]) \cup Moved(C, path[i + 1]))])
Deep(hs, r, p, tol) == \E i \in 1 .. Len(hs) : FromHull(hs[i], p) - r <= -tol
Far(hs, r, p, tol) == \A i \in 1 .. Len(hs) : FromHull(hs[i], p) - r >= tol
\* ------------------------------------------------------------------ round tips <<x, y, r>> of changing size: the hull of two circles is the union of those in between
Steps == 32
DeepIn(a, b, p, tol) == \E k \in 0 .. Steps : LET r == a[3] + ((b[3] - a[3]) * k) \div Steps - tol q == <<a[1] + ((b[1] - a[1]) * k) \div Steps, a[2] + ((b[2] - a[2]) * k) \div Steps>> IN r >= 0 /\ Len2(q, p) <= r * r
FarFrom(a, b, p, tol) == \A k \in 0 .. Steps : LET r == a[3] + ((b[3] - a[3]) * k) \div Steps + tol q == <<a[1] + ((b[1] - a[1]) * k) \div Steps, a[2] + ((b[2] - a[2]) * k) \div Steps>> IN Len2(q, p) >= r * r
DeepR(path, p, tol) == IF Len(path) = 1 THEN DeepIn(path[1], path[1], p, tol) ELSE \E i \in 1 .. Len(path) - 1 : DeepIn(path[i], path[i + 1], p, tol)
FarR(path, p, tol) == IF Len(path) = 1 THEN FarFrom(path[1], path[1], p, tol) ELSE \A i \in 1 .. Len(path) - 1 : FarFrom(path[i], path[i + 1], p, tol)
\* ------------------------------------------------------------------ paths the claim is made for: steps over half the epsilon, turns of less than 0.35 radians, even less for steps shorter than the tip is wide
Gentle(path, size) == \A i \in 1 .. Len(path) - 1 :
  LET d(k) == <<path[k + 1][1] - path[k][1], path[k + 1][2] - path[k][2]>> IN
  /\ 4 * Len2(path[i], path[i + 1]) >= EPS * EPS
  /\ i > 1 => LET u == d(i - 1) v == d(i) c == AbsI(u[1] * v[2] - u[2] * v[1]) s == u[1] * v[1] + u[2] * v[2] l == Min2(size, Root(Len2(path[i - 1], path[i]))) IN
              s > 0 /\ c <= (((s \div 100) * l) \div size) * 36 + 2 * (Root(Len2(path[i - 1], path[i])) + Root(Len2(path[i], path[i + 1]))) + 36
\* ------------------------------------------------------------------ extrusions of round tips: <<x, y, r>>, or Break
Break == <<>>
IsBreak(e) == e = Break
Inside(a, b) == b[3] >= a[3] /\ Len2(a, b) <= (b[3] - a[3]) * (b[3] - a[3])      \* a lies in b
RECURSIVE Trimmed(_, _)          \* without the extrusions since the last break
Trimmed(s, e) == IF s = <<>> \/ IsBreak(s[Len(s)]) THEN s ELSE Trimmed(SubSeq(s, 1, Len(s) - 1), e)
Current(s) == SubSeq(s, Len(Trimmed(s, Break)) + 1, Len(s))
Closed(s) == IF s = <<>> \/ IsBreak(s[Len(s)]) THEN s ELSE Append(s, Break)
Extruded(s, e) ==
  IF 2 * e[3] < EPS THEN Closed(s)
  ELSE LET cur == Current(s) IN
       IF cur = <<>> THEN Append(s, e)
       ELSE LET last == cur[Len(cur)] IN
            IF Inside(e, last) THEN s
            ELSE IF ~Inside(last, e) THEN Append(s, e)
            ELSE IF \A i \in 1 .. Len(cur) : Inside(cur[i], e) THEN Append(Trimmed(s, Break), e)
            ELSE Append(Closed(s), e)
RECURSIVE ExtrudedAll(_, _)
ExtrudedAll(s, es) == IF es = <<>> THEN s ELSE ExtrudedAll(Extruded(s, Head(es)), Tail(es))
RECURSIVE Pieces(_)              \* the pieces between breaks
Pieces(s) == IF s = <<>> THEN <<>> ELSE LET cur == Current(Closed(s)) t == IF IsBreak(s[Len(s)]) THEN SubSeq(s, 1, Len(s) - 1) ELSE s c == Current(t) IN (IF cur = <<>> /\ c = <<>> THEN <<>> ELSE Pieces(Trimmed(t, Break)) \o (IF c = <<>> THEN <<>> ELSE <<c>>))
\* the pieces of the states themselves
RECURSIVE Intended(_)
Intended(es) == LET RECURSIVE Go(_, _, _) Go(i, cur, acc) == IF i > Len(es) THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur)) ELSE IF 2 * es[i][3] < EPS THEN Go(i + 1, <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur)) ELSE Go(i + 1, Append(cur, es[i]), acc) IN Go(1, <<>>, <<>>)
=============================================================================
