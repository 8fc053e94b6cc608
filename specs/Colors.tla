------------------------------- MODULE Colors -------------------------------
(* Colors: three channels, linear and not premultiplied, an alpha, and a color space. Numbers are encoded floats (Floats); products and powers are   *)
(* judged with SoftFloats. A color is [c |-> <<r, g, b>>, a, space].                                                                                 *)
EXTENDS SoftFloats
Half == One - 8388608
Spaces == {"sRGB", "Display-P3"}
Formats == {"kLinear", "kGammaEncoded", "kPremultipliedAlpha"}
Chans == 1 .. 3
IsColor(k) == (\A i \in Chans : ~IsNan(k.c[i]) /\ k.c[i] \in -Inf .. Inf) /\ k.a \in 0 .. One /\ k.space \in Spaces
OpaqueBlack == [c |-> <<0, 0, 0>>, a |-> One, space |-> "sRGB"]
Clean(x) == IF IsNan(x) THEN 0 ELSE x
Clamp01(x) == IF IsNan(x) THEN 0 ELSE Min(Max(x, 0), One)
Bit23 == 22
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Tiny == 8388608 * 30      \* 2^-97: below it, and above its inverse, products are not judged
Tame(x) == x = 0 \/ (Abs(x) > Tiny /\ Abs(x) < 8388608 * 224)
\* y = x * k for an alpha 0 < k <= 1
Product(x, k, y) == /\ ~IsNan(y) /\ (Sign(y) = Sign(x) \/ y = 0)
                    /\ (k = One => y = x) /\ (IsInf(x) => y = x) /\ (x = 0 => y = 0)
                    /\ (Tame(x) /\ Tame(k) /\ Tame(y) /\ x # 0 => Close(Mul(Soft(x), Soft(k)), Soft(y), Bit23))
                    /\ (Tame(x) /\ Tame(k) /\ x # 0 /\ k > One - 8388608 * 20 /\ Abs(x) > One - 8388608 * 60 => y # 0)
\* ------------------------------------------------------------------ transfer functions
\* encoded x and linear y, both in [0, 1], belong together: y = x / 12.92 at first, then ((x + 0.055) / 1.055) ^ 2.4
Threshold == 1025879782        \* 0.04045
LowThreshold == 994913841      \* 0.04045 / 12.92
Straight(x, y, k) == Close(Mul(Soft(y), Whole(323)), Mul(Soft(x), Whole(25)), k)
Curved(x, y, k) == Close(Mul(Pow5(Soft(y)), Pow12(Whole(211))), Pow12(Add(Mul(Soft(x), Whole(200)), Whole(11))), k)
Decodes(x, y) == /\ ~IsNan(y)
                 /\ x = 0 => y = 0
                 /\ x = One => y = One
                 /\ x \in 0 .. One => y \in 0 .. One
                 /\ x \in 1 .. Threshold - 4 /\ Tame(x) => Straight(x, y, 21)
                 /\ x \in Threshold - 3 .. Threshold + 3 => Straight(x, y, 20) \/ Curved(x, y, 19)
                 /\ x \in Threshold + 4 .. One => Curved(x, y, 19)
Encodes(y, x) == /\ ~IsNan(x)
                 /\ y = 0 => x = 0
                 /\ y = One => Near(x, One, 2)
                 /\ y \in 1 .. LowThreshold - 8 /\ Tame(y) => Straight(x, y, 21)
                 /\ y \in LowThreshold - 7 .. LowThreshold + 7 => Straight(x, y, 20) \/ Curved(x, y, 18)
                 /\ y \in LowThreshold + 8 .. One => Curved(x, y, 18)
\* ------------------------------------------------------------------ making colors and reading them
\* what a channel given as x becomes (c), for alpha a
Takes(format, x, a, c) ==
  CASE format = "kLinear" -> c = Clean(x)
    [] format = "kPremultipliedAlpha" -> IF a = 0 THEN c = 0 /\ Clean(x) = 0 ELSE ~IsNan(c) /\ (a = One => c = Clean(x)) /\ (IsInf(c) \/ Product(c, a, Clean(x))) /\ (IsInf(c) => ~Tame(a) \/ Abs(Clean(x)) > One + 8388608 * 29)
    [] format = "kGammaEncoded" -> Decodes(Clean(x), c)
Refused(format, xs, a) == format = "kPremultipliedAlpha" /\ Clamp01(a) = 0 /\ \E i \in Chans : Clean(xs[i]) # 0
Made(format, xs, a, space, k) == IsColor(k) /\ k.space = space /\ k.a = Clamp01(a) /\ \A i \in Chans : Takes(format, xs[i], k.a, k.c[i])
\* what the channel c reads as (y)
Gives(format, c, a, y) ==
  /\ ~IsNan(y)
  /\ CASE format = "kLinear" -> y = c
       [] format = "kPremultipliedAlpha" -> IF a = 0 THEN y = 0 ELSE Product(c, a, y)
       [] format = "kGammaEncoded" -> Encodes(c, y)
ReadAs(format, k, ys, a) == a = k.a /\ \A i \in Chans : Gives(format, k.c[i], k.a, ys[i])
\* a byte for a value: 255 v rounded; at and next to halves either neighbour
ByteOK(v, b) == IF v <= 0 THEN b = 0 ELSE IF v >= One THEN b = 255 ELSE
  b \in 0 .. 255 /\ LET t == Mul(Soft(v), Whole(510)) IN Below(Sub(Whole(2 * b - 1), t), <<P29, -29 - 13>>) /\ Below(Sub(t, Whole(2 * b + 1)), <<P29, -29 - 13>>)
BytesOK(format, k, ys, bs, a) == (\A i \in Chans : ByteOK(ys[i], bs[i])) /\ ByteOK(k.a, a)
\* ------------------------------------------------------------------ gamuts
NearZero == 922747007          \* 1 / (2 * 65535), the 16-bit quantization error; comparisons within a few units are free
NearOne == One + 64
In01(x) == x \in 0 .. One
InGamut(k) == \A i \in Chans : In01(k.c[i])
SureNear(x) == x >= -(NearZero - 32) /\ x <= NearOne - 2
MaybeNear(x) == x >= -(NearZero + 32) /\ x <= NearOne + 2
NearlyInGamut(k, says) == IF \A i \in Chans : SureNear(k.c[i]) THEN says ELSE (\A i \in Chans : MaybeNear(k.c[i])) \/ ~says
Clamped(k, r) == r = [k EXCEPT !.c = [i \in Chans |-> Clamp01(k.c[i])]]
Largest(k) == Max(k.c[1], Max(k.c[2], k.c[3]))
Scaled(k, r) ==
  /\ IsColor(r) /\ InGamut(r) /\ r.a = k.a /\ r.space = k.space
  /\ LET m == Largest(k) IN
     /\ m <= One => r.c = [i \in Chans |-> Max(k.c[i], 0)]
     /\ m > One => /\ \A i \in Chans : (k.c[i] = m => r.c[i] = One) /\ (k.c[i] <= 0 => r.c[i] = 0)
                   /\ \A i, j \in Chans : k.c[i] <= k.c[j] => r.c[i] <= r.c[j]
                   /\ m < Inf => \A i \in Chans : k.c[i] > 0 /\ Tame(k.c[i]) /\ Tame(m) /\ Tame(r.c[i]) => Close(Mul(Soft(r.c[i]), Soft(m)), Soft(k.c[i]), Bit23)
                   /\ m = Inf => \A i \in Chans : k.c[i] < Inf => r.c[i] = 0
\* ------------------------------------------------------------------ comparisons (of colors in one space)
Same(j, k) == j.space = k.space /\ j.a = k.a /\ j.c = k.c
Difference(x, y) == IF x = y THEN "near" ELSE IF ~Finite(x) \/ ~Finite(y) THEN "far" ELSE
  LET d == Mag(Sub(Soft(x), Soft(y))) z == Soft(NearZero) IN IF d[1] = 0 \/ Less(Mul(d, Whole(16777220)), Mul(z, Whole(16777211))) THEN "near" ELSE IF Less(Mul(z, Whole(16777220)), Mul(d, Whole(16777211))) THEN "far" ELSE "either"
NearlyEqual(j, k, says) == LET ds == {Difference(j.c[i], k.c[i]) : i \in Chans} \cup {Difference(j.a, k.a)} IN ("far" \in ds => ~says) /\ (ds = {"near"} => says)
\* ------------------------------------------------------------------ color spaces
\* x and y chromaticity of the primaries and of the white point, in 1 / 100000
Primaries(space) == IF space = "sRGB" THEN <<<<64000, 33000>>, <<30000, 60000>>, <<15000, 6000>>>> ELSE <<<<68000, 32000>>, <<26500, 69000>>, <<15000, 6000>>>>
WhitePoint == <<31271, 32902>>
\* a color XYZ has chromaticity <<x, y>>
Chromatic(v, p) == LET s == Add(v[1], Add(v[2], v[3])) IN Within(Mul(v[1], Whole(100000)), Mul(s, Whole(p[1])), Whole(100000), 20) /\ Within(Mul(v[2], Whole(100000)), Mul(s, Whole(p[2])), Whole(100000), 20)
SoftSeq(m) == [i \in 1 .. Len(m) |-> Soft(m[i])]
Column(m, j) == <<m[3 * j - 2], m[3 * j - 1], m[3 * j]>>           \* of a matrix given by columns
Apply(m, v) == [i \in Chans |-> Add(Mul(m[i], v[1]), Add(Mul(m[i + 3], v[2]), Mul(m[i + 6], v[3])))]
ToXyzOK(space, m) == LET s == SoftSeq(m) w == Apply(s, <<Whole(1), Whole(1), Whole(1)>>) IN
  (\A j \in Chans : Chromatic(Column(s, j), Primaries(space)[j])) /\ Chromatic(w, WhitePoint) /\ Within(w[2], Whole(1), Whole(1), 21)
Inverse(m, n) == LET s == SoftSeq(m) t == SoftSeq(n) IN \A j \in Chans : LET v == Apply(s, Column(t, j)) IN \A i \in Chans : Within(v[i], Whole(IF i = j THEN 1 ELSE 0), Whole(1), 19)
Transposed(m, n) == \A i \in Chans, j \in Chans : m[3 * (j - 1) + i] = n[3 * (i - 1) + j]
\* r is k in another space, given the matrices to XYZ of both
BiggestSoft(v) == Greater(Mag(v[1]), Greater(Mag(v[2]), Mag(v[3])))
Converted(k, r, space, from, to) ==
  /\ IsColor(r) /\ r.space = space /\ r.a = k.a
  /\ k.space = space => r.c = k.c
  /\ (\A i \in Chans : Finite(k.c[i]) /\ Tame(k.c[i])) => LET v == SoftSeq(k.c) b == BiggestSoft(v) x == Apply(SoftSeq(from), v) y == Apply(SoftSeq(to), SoftSeq(r.c)) IN \A i \in Chans : Within(x[i], y[i], b, 19)
\* ------------------------------------------------------------------ names
Palette == [Black |-> <<0, 0, 0>>, Gray |-> <<42, 42, 42>>, White |-> <<255, 255, 255>>, Red |-> <<255, 0, 0>>, Orange |-> <<255, 170, 0>>, Yellow |-> <<255, 255, 0>>, Green |-> <<0, 255, 0>>, Cyan |-> <<0, 255, 255>>,
  Blue |-> <<0, 0, 255>>, LightBlue |-> <<119, 119, 255>>, Purple |-> <<170, 0, 255>>, Magenta |-> <<255, 0, 255>>, GoogleBlue |-> <<66, 133, 244>>, GoogleRed |-> <<234, 67, 53>>, GoogleYellow |-> <<251, 188, 4>>,
  GoogleGreen |-> <<52, 168, 83>>, GoogleGray |-> <<154, 160, 166>>, GoogleOrange |-> <<250, 123, 23>>, GooglePink |-> <<244, 57, 160>>, GooglePurple |-> <<161, 66, 244>>, GoogleCyan |-> <<36, 193, 224>>, DefaultDocumentBackground |-> <<250, 250, 250>>]
=============================================================================
