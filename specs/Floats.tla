------------------------------- MODULE Floats -------------------------------
(* Single precision floats as order-preserving integers: Enc(x) < Enc(y) <=> x < y for non-NaN x, y; both zeros are 0.  *)
(* Inf is the encoding of +infinity, Nan of any NaN. Only comparisons are meaningful on encodings.                      *)
EXTENDS Integers
Inf == 2139095040
Nan == 2147483647
IsNan(x) == x = Nan
IsInf(x) == x = Inf \/ x = -Inf
Finite(x) == -Inf < x /\ x < Inf
NonNeg(x) == x >= 0 /\ ~IsNan(x)
Neg(x) == IF IsNan(x) THEN Nan ELSE -x
One == 1065353216
\* Equal up to k units in the last place (same sign, both finite), or identical
Near(x, y, k) == \/ x = y
                 \/ /\ Finite(x) /\ Finite(y)
                    /\ \/ (x >= 0 /\ y >= 0 /\ x - y <= k /\ y - x <= k)
                       \/ (x <= 0 /\ y <= 0 /\ x - y <= k /\ y - x <= k)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Abs(a) == IF a < 0 THEN -a ELSE a
=============================================================================
