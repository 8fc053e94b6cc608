----------------------------- MODULE SoftFloats -----------------------------
(* Arithmetic on real numbers written m * 2^e with about 28 significant bits: enough to judge what single precision code computed without trusting   *)
(* any floating point hardware. A number is <<m, e>> with m = 0 or 2^29 <= |m| < 2^30; Soft() takes the order-preserving encodings of Floats.           *)
EXTENDS Floats, Sequences
P29 == 536870912
P15 == 32768
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF Abs(m) < P15 THEN Norm(m * P15, e - 15) ELSE IF Abs(m) < 16777216 THEN Norm(m * 32, e - 5) ELSE IF Abs(m) < P29 THEN Norm(m * 2, e - 1)
  ELSE IF Abs(m) >= 2 * P29 THEN (IF m > 0 THEN Norm(m \div 2, e + 1) ELSE Norm(-((-m) \div 2), e + 1)) ELSE <<m, e>>
Whole(n) == Norm(n, 0)
Negate(a) == <<-a[1], a[2]>>
Mag(a) == <<Abs(a[1]), a[2]>>
Soft(x) == LET u == Abs(x) ex == u \div 8388608 fr == u % 8388608 s == IF ex = 0 THEN Norm(fr, -149) ELSE Norm(8388608 + fr, ex - 150) IN IF x < 0 THEN Negate(s) ELSE s
RECURSIVE Shift(_, _)
Shift(m, k) == IF k = 0 \/ m = 0 THEN m ELSE IF k >= 15 THEN Shift(m \div P15, k - 15) ELSE Shift(m \div 2, k - 1)
Down(m, k) == IF m >= 0 THEN Shift(m, k) ELSE -Shift(-m, k)
Mul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN <<0, 0>> ELSE
  LET x == Abs(a[1]) y == Abs(b[1]) xh == x \div P15 xl == x % P15 yh == y \div P15 yl == y % P15
      p == xh * yh + (xh * yl) \div P15 + (xl * yh) \div P15
  IN Norm(IF (a[1] > 0) = (b[1] > 0) THEN p ELSE -p, a[2] + b[2] + 30)
Add(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a ELSE
  LET e == IF a[2] > b[2] THEN a[2] ELSE b[2] IN Norm(Down(a[1], Min(e - a[2] + 1, 60)) + Down(b[1], Min(e - b[2] + 1, 60)), e + 1)
Sub(a, b) == Add(a, Negate(b))
Below(a, b) == LET d == Sub(a, b) IN d[1] <= 0                                          \* a <= b, but for the last bits
\* a and b of the same magnitude class: for non-negative ones
Less(a, b) == IF b[1] = 0 THEN FALSE ELSE IF a[1] = 0 THEN TRUE ELSE a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
Greater(a, b) == IF Less(a, b) THEN b ELSE a
\* |a - b| <= scale / 2^k
Within(a, b, scale, k) == LET d == Mag(Sub(a, b)) IN d[1] = 0 \/ ~Less(<<Mag(scale)[1], scale[2] - k>>, d)
Close(a, b, k) == Within(a, b, Greater(Mag(a), Mag(b)), k)
Sqr(a) == Mul(a, a)
Pow5(a) == Mul(Sqr(Sqr(a)), a)
Pow12(a) == Sqr(Sqr(Mul(Sqr(a), a)))
=============================================================================
