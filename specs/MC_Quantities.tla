---------------------------- MODULE MC_Quantities ----------------------------
(* Exhaustive check of the normalization rules on an exact integer circle: Full units per turn, values -Span..Span, where  *)
(* encodings are the integers themselves. Repeated normalization in any order must keep the class and reach the range.      *)
EXTENDS Quantities, TLC
CONSTANT Span
VARIABLES x0, x
\* exact remainder with the sign of the dividend (fmod)
FMod(a, m) == IF a >= 0 THEN a % m ELSE -((-a) % m)
Init == x0 \in -Span..Span /\ x = x0
P == FMod(x, TwoPi)
Next == /\ UNCHANGED x0
        /\ \/ x' \in Normalized(x, P, P + TwoPi)
           \/ x' = AboutZero(x, P, P - TwoPi, P + TwoPi)
Spec == Init /\ [][Next]_<<x0, x>>
Equivalent == (x - x0) % TwoPi = 0
Ranged == /\ \A r \in Normalized(x, P, P + TwoPi) : InRange(r) /\ (r - x) % TwoPi = 0
          /\ LET r == AboutZero(x, P, P - TwoPi, P + TwoPi) IN InRange0(r) /\ (r - x) % TwoPi = 0
=============================================================================
