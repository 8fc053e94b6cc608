------------------------------ MODULE Durations ------------------------------
(* Short durations as extended reals. Hardware single precision arithmetic is a primitive: its result p for the same    *)
(* operands is a parameter; the rules say when it is the result and what the result is when it is not.                   *)
EXTENDS Floats
SignedInf(pos) == IF pos THEN Inf ELSE -Inf
Construct(x, p) == IF IsNan(x) THEN Inf ELSE p          \* from a raw float number of units
Add(a, b, p) == IF IsInf(a) THEN a ELSE p
Sub(a, b, p) == IF IsInf(a) THEN a ELSE p
\* Scaling by a number s (nz: s is a negative zero, where either sign of an infinite result is acceptable)
Scale(d, s, p, nz) ==
  IF IsNan(s) THEN {SignedInf(d >= 0)}
  ELSE IF IsInf(d) THEN {SignedInf((d >= 0) = (s >= 0))} \cup (IF nz THEN {-d} ELSE {})
  ELSE IF IsNan(p) THEN {SignedInf((d >= 0) = (s >= 0))} \cup (IF nz THEN {SignedInf(FALSE)} ELSE {})
  ELSE {p}
Divide(d, s, p, nz) == Scale(d, s, p, nz)
Ratio(a, b, p) == IF b = 0 THEN SignedInf(a >= 0)
                  ELSE IF IsInf(a) THEN SignedInf((a >= 0) = (b >= 0))
                  ELSE p
=============================================================================
