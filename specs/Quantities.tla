----------------------------- MODULE Quantities -----------------------------
(* Scalar quantities (physical distances in centimeters, angles in radians) as single precision reals with units, and      *)
(* angle normalization. p, q: hardware single precision results that the rules are stated over.                            *)
EXTENDS Floats
CONSTANTS Pi, TwoPi             \* encodings of the float constants
\* The unique equivalent angle in [0, 2pi): x itself when in range, otherwise the remainder p of x / 2pi, plus 2pi (= q) if
\* the remainder is negative; when p + 2pi rounds to 2pi the nearest value in range is 0 (the predecessor of 2pi is as near).
Normalized(x, p, q) == IF 0 <= x /\ x < TwoPi THEN {x}
                       ELSE IF p >= 0 THEN {p} ELSE IF q >= TwoPi THEN {0, TwoPi - 1} ELSE {q}
\* The unique equivalent angle in (-pi, pi]: qm = p - 2pi, qp = p + 2pi.
AboutZero(x, p, qm, qp) == IF -Pi < x /\ x <= Pi THEN x ELSE IF p > Pi THEN qm ELSE IF p <= -Pi THEN qp ELSE p
InRange(r) == 0 <= r /\ r < TwoPi
InRange0(r) == -Pi < r /\ r <= Pi
Compare(a, b, e) == /\ e.eq = (a = b) /\ e.ne = (a # b) /\ e.lt = (a < b)
                    /\ e.gt = (a > b) /\ e.le = (a <= b) /\ e.ge = (a >= b)
Arith(e) == IF IsNan(e.p) THEN IsNan(e.r) ELSE Near(e.r, e.p, 1)
=============================================================================
