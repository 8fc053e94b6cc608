------------------------------ MODULE MC_Colors ------------------------------
(* Histories of a color: made from channels on a small grid, then given an alpha, clamped or scaled to its gamut. The invariants are what the property says; *)
(* every history is replayed on the real code. The software floats that judge the transfer functions are checked against exact arithmetic first.            *)
EXTENDS Colors, TLC
CONSTANTS N, Wide
VARIABLES k, text, n
Q == 8388608
Reds == {0, Half, One + Q, One + 64, One + 66, -(NearZero - 64), -(NearZero + 64), Inf, -Inf, Nan} \cup (IF Wide THEN {One, -One, One + 2 * Q, Half - Q, NearZero, -Half, One + 1} ELSE {})
Greens == IF Wide THEN {0, Half, One + Q, Inf} ELSE {0, One + Q, Inf}
Blues == IF Wide THEN {Half, One, -Inf} ELSE {Half}
First == {0, Half - Q, One} \cup (IF Wide THEN {Nan, One + Q} ELSE {})
Alphas == {0, Half - Q, One, -One, One + Q, Nan}
\* results of dividing the grid's values by powers of two
Grid == (Reds \cup Greens \cup Blues) \ {Nan}
Finer == Grid \cup {0, One} \cup {IF Abs(v) > 8 * Q /\ Finite(v) THEN (IF v > 0 THEN v - m * Q ELSE v + m * Q) ELSE v : v \in Grid, m \in -2 .. 2}
Make(f, x, a) == LET al == Clamp01(a) IN {r \in [c : {<<u, v, w>> : u \in {y \in Finer : Takes(f, x[1], al, y)}, v \in {y \in Finer : Takes(f, x[2], al, y)}, w \in {y \in Finer : Takes(f, x[3], al, y)}}, a : {al}, space : {"sRGB"}] : TRUE}
Init == \E f \in {"kLinear", "kPremultipliedAlpha"}, r \in Reds, g \in Greens, b \in Blues, a \in First :
  /\ n = 0 /\ text = "make " \o f \o " " \o ToString(r) \o " " \o ToString(g) \o " " \o ToString(b) \o " " \o ToString(a)
  /\ IF Refused(f, <<r, g, b>>, a) THEN k = OpaqueBlack ELSE k = CHOOSE r2 \in Make(f, <<r, g, b>>, a) : TRUE
Scalings(c) == {r \in {[c EXCEPT !.c = <<u, v, w>>] : u \in Finer \cap (0 .. One), v \in Finer \cap (0 .. One), w \in Finer \cap (0 .. One)} : Scaled(c, r)}
Next == n < N /\ n' = n + 1 /\
  \/ \E a \in Alphas : k' = [k EXCEPT !.a = Clamp01(a)] /\ text' = text \o ";alpha " \o ToString(a)
  \/ k' = [k EXCEPT !.c = [i \in Chans |-> Clamp01(k.c[i])]] /\ text' = text \o ";clamp"
  \/ Scalings(k) # {} /\ k' = (CHOOSE r \in Scalings(k) : TRUE) /\ text' = text \o ";scale"
Valid == IsColor(k)
Agree == LET cl == [k EXCEPT !.c = [i \in Chans |-> Clamp01(k.c[i])]] IN
  /\ InGamut(cl) /\ Clamped(k, cl) /\ Clamped(cl, cl)
  /\ InGamut(k) => cl = k /\ Scaled(k, k) /\ NearlyInGamut(k, TRUE) /\ ~NearlyInGamut(k, FALSE)
  /\ \A r \in Scalings(k) : InGamut(r) /\ Scaled(r, r) /\ (InGamut(k) => r = k)
  /\ NearlyEqual(k, k, TRUE) /\ ~NearlyEqual(k, k, FALSE)
  /\ (InGamut(k) => \A i \in Chans : \A b \in {0, 255} : ByteOK(k.c[i], b) => k.c[i] = (IF b = 0 THEN 0 ELSE One) \/ Abs(k.c[i] - One) < 90000 \/ k.c[i] < One - 8 * Q)
Emit == PrintT("BEH " \o text)
\* the software floats
Exact == {0, 1, 2, 3, 7, 211, 255, 323, 1000, 4095, 10000, 65535}
ASSUME \A a, b \in Exact : (a < 10001 /\ b < 10001 => Mul(Whole(a), Whole(b)) = Whole(a * b)) /\ Add(Whole(a), Whole(b)) = Whole(a + b) /\ Sub(Whole(a), Whole(b)) = Whole(a - b)
ASSUME \A a \in Exact : Mul(Whole(-a), Whole(3)) = Whole(-3 * a) /\ Close(Whole(a), Whole(a), 29) /\ (a > 0 => ~Close(Whole(a), Whole(a + 1), 20))
ASSUME Soft(One) = Whole(1) /\ Soft(One + Q) = Whole(2) /\ Soft(-Half) = <<-P29, -30>> /\ Soft(1) = <<P29, -149 - 29>>
ASSUME Pow12(Whole(5)) = Whole(244140625) /\ Pow5(Whole(10)) = Whole(100000)
\* the two pieces of the transfer function meet where they are said to
ASSUME Straight(Threshold, LowThreshold, 20) /\ Curved(Threshold, LowThreshold, 18) /\ Curved(One, One, 24) /\ ~Curved(One, One - 64, 20) /\ ~Straight(Threshold + 100, LowThreshold, 20)
\* both sets of primaries span the plane around the same white: the sRGB triangle is inside the other
Cross(p, q, x) == ((q[1] - p[1]) \div 10) * ((x[2] - p[2]) \div 10) - ((q[2] - p[2]) \div 10) * ((x[1] - p[1]) \div 10)
InsideOf(t, x) == \A i \in Chans : Cross(t[i], t[(i % 3) + 1], x) >= 0
ASSUME InsideOf(Primaries("sRGB"), WhitePoint) /\ \A i \in Chans : InsideOf(Primaries("Display-P3"), Primaries("sRGB")[i])
=============================================================================
