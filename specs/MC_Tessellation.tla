--------------------------- MODULE MC_Tessellation ---------------------------
(* All closed contours of up to N points of a small grid, and sample points between: what the winding numbers of the specification are is settled for triangles, *)
(* where they tell inside from outside and left from right, and for the rest by cutting a triangle off. All contours are replayed.                                *)
EXTENDS Tessellation, TLC
CONSTANTS N, W, H
VARIABLE c
Init == c = <<>>
Next == Len(c) < N /\ \E x \in 0 .. W, y \in 0 .. H : c' = Append(c, <<8 * x, 8 * y>>)
Samples == {<<8 * x + 3, 8 * y + 5>> : x \in -1 .. W, y \in -1 .. H} \cup {<<8 * x + 6, 8 * y + 1>> : x \in 0 .. W - 1, y \in 0 .. H - 1}
Good == {s \in Samples : Clear(<<c>>, s)}
W1(a, s) == Wind(a, s, 1)
Rev(a) == [i \in 1 .. Len(a) |-> a[Len(a) + 1 - i]]
Tri(a, b, d, s) == LET x == TurnT(a, b, s) y == TurnT(b, d, s) z == TurnT(d, a, s) IN IF x > 0 /\ y > 0 /\ z > 0 THEN 1 ELSE IF x < 0 /\ y < 0 /\ z < 0 THEN -1 ELSE 0
Triangles == Len(c) = 3 => \A s \in Good : W1(c, s) = Tri(c[1], c[2], c[3], s)
Cutting == Len(c) > 3 => LET n == Len(c) a == SubSeq(c, 1, n - 1) t == <<c[1], c[n - 1], c[n]>> IN \A s \in {x \in Good : Clear(<<a, t>>, x)} : W1(c, s) = W1(a, s) + W1(t, s) /\ W1(c, s) = Winding(<<a, t>>, s)
Turning == c # <<>> => \A s \in Good : W1(Rev(c), s) = -W1(c, s) /\ W1(Tail(c) \o <<Head(c)>>, s) = W1(c, s)
Flat == c # <<>> /\ OnALine(c) => \A s \in Good : W1(c, s) = 0
ASSUME \A w \in -4 .. 4 : /\ (Inside(w, "odd") => Inside(w, "nonzero")) /\ (Inside(w, "nonzero") <=> Inside(w, "positive") \/ Inside(w, "negative"))
                            /\ (Inside(w, "two") <=> Inside(w, "nonzero") /\ AbsT(w) # 1)
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE ToString(Head(s)[1]) \o " " \o ToString(Head(s)[2]) \o ";" \o Text(Tail(s))
Emit == PrintT("BEH mesh;" \o Text(c))
=============================================================================
