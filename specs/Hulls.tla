------------------------------- MODULE Hulls -------------------------------
(* The convex hull of points with integer coordinates: the strictly convex cycle of input points, anticlockwise, that has every input point on or to the   *)
(* left of each of its edges. It is unique up to where the cycle starts.                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets
Turn(a, b, c) == (b[1] - a[1]) * (c[2] - b[2]) - (b[2] - a[2]) * (c[1] - b[1])
Between(p, a, b) == Turn(a, b, p) = 0 /\ (p[1] - a[1]) * (p[1] - b[1]) <= 0 /\ (p[2] - a[2]) * (p[2] - b[2]) <= 0
At(h, i) == h[((i - 1) % Len(h)) + 1]
HullOf(ps, h) ==
  LET S == {ps[i] : i \in 1 .. Len(ps)} n == Len(h) IN
  /\ (S = {}) = (n = 0)
  /\ \A i \in 1 .. n : h[i] \in S
  /\ Cardinality({h[i] : i \in 1 .. n}) = n
  /\ n = 1 => \A p \in S : p = h[1]
  /\ n = 2 => \A p \in S : Between(p, h[1], h[2])
  /\ n >= 3 => \A i \in 1 .. n : Turn(h[i], At(h, i + 1), At(h, i + 2)) > 0 /\ \A p \in S : Turn(h[i], At(h, i + 1), p) >= 0
\* ------------------------------------------------------------------ Graham's scan
Lower(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
Lowest(S) == CHOOSE p \in S : \A q \in S : p = q \/ Lower(p, q)
AbsI(x) == IF x < 0 THEN -x ELSE x
\* p comes before q around s: by angle, and if it is the same, by distance; Far tells what is taken for the distance
Before(s, p, q, Far(_, _)) == LET d == (p[1] - s[1]) * (q[2] - s[2]) - (p[2] - s[2]) * (q[1] - s[1]) IN d > 0 \/ (d = 0 /\ Far(s, p) < Far(s, q))
Around(s, p) == (p[1] - s[1]) * (p[1] - s[1]) + (p[2] - s[2]) * (p[2] - s[2])
Aside(s, p) == AbsI(p[1] - s[1])
\* every order that sorting may leave
Sorted(ps, s, Far(_, _)) == {f \in [1 .. Len(ps) -> 1 .. Len(ps)] : (\A i, j \in 1 .. Len(ps) : i # j => f[i] # f[j]) /\ \A i, j \in 1 .. Len(ps) : i < j => ~Before(s, ps[f[j]], ps[f[i]], Far)}
RECURSIVE Pop(_, _)
Pop(h, p) == IF Len(h) >= 2 /\ Turn(h[Len(h) - 1], h[Len(h)], p) <= 0 THEN Pop(SubSeq(h, 1, Len(h) - 1), p) ELSE Append(h, p)
RECURSIVE Scan(_, _)
Scan(h, ps) == IF ps = <<>> THEN h ELSE Scan(Pop(h, Head(ps)), Tail(ps))
Graham(ps, Far(_, _)) == LET S == {ps[i] : i \in 1 .. Len(ps)} s == Lowest(S) rest == SelectSeq(ps, LAMBDA p : p # s) IN {Scan(<<s>>, [i \in 1 .. Len(rest) |-> rest[f[i]]]) : f \in Sorted(rest, s, Far)}
\* ------------------------------------------------------------------ leaving out points inside the extreme ones (Akl and Toussaint)
InTriangle(p, a, b, c) == IF Turn(a, b, c) = 0 THEN Between(p, a, b) \/ Between(p, b, c) \/ Between(p, c, a)
                          ELSE ({Turn(a, b, p) >= 0, Turn(b, c, p) >= 0, Turn(c, a, p) >= 0} = {TRUE}) \/ ({Turn(a, b, p) <= 0, Turn(b, c, p) <= 0, Turn(c, a, p) <= 0} = {TRUE})
Extreme(ps, c, sign) == LET S == {ps[i] : i \in 1 .. Len(ps)} IN {p \in S : \A q \in S : sign * p[c] >= sign * q[c]}
\* what is left when the points in the quadrilateral of some extreme ones, but for its corners if Keep, are left out
Pruned(ps, Keep) == {LET in(p) == (InTriangle(p, l, r, t) \/ InTriangle(p, l, b, r)) /\ ~(Keep /\ p \in {l, r, t, b}) IN SelectSeq(ps, LAMBDA p : ~in(p)) : l \in Extreme(ps, 1, -1), r \in Extreme(ps, 1, 1), b \in Extreme(ps, 2, -1), t \in Extreme(ps, 2, 1)}
=============================================================================
