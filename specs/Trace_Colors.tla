----------------------------- MODULE Trace_Colors -----------------------------
EXTENDS Colors, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k
Word(h, lo, a, b, c, d) == h = a * 256 + b /\ lo = c * 256 + d
\* the observation o of the color o.k is consistent
Seen(o) ==
  /\ IsColor(o.k) /\ o.alpha = o.k.a
  /\ o.in = InGamut(o.k) /\ NearlyInGamut(o.k, o.near)
  /\ Len(o.r) = 3
  /\ \A i \in 1 .. 3 : LET r == o.r[i] IN /\ ReadAs(r.f, o.k, r.y, r.a) /\ BytesOK(r.f, o.k, r.y, r.b, r.ba) /\ Word(r.w[1], r.w[2], r.b[1], r.b[2], r.b[3], r.ba)
SpaceOK(e) ==
  /\ Converted(k, e.o.k, e.to, e.m, e.n)
  /\ (k.space # e.to => ToXyzOK(k.space, e.m) /\ ToXyzOK(e.to, e.n))
  /\ (\A i \in Chans : e.o.k.c[i] = Clean(e.raw[i])) /\ e.raw[4] = k.a
  /\ e.back.space = k.space /\ e.back.a = k.a /\ (k.space = e.to => e.back = k)
  /\ (\A i \in Chans : Finite(k.c[i]) /\ Tame(k.c[i])) => LET v == SoftSeq(k.c) w == SoftSeq(e.back.c) b == BiggestSoft(v) IN \A i \in Chans : Within(v[i], w[i], b, 19)
BackNear(x, y, k2) == Within(Soft(x), Soft(y), Whole(1), k2)
Rising(e) == \A i \in 2 .. Len(e.ys) : e.ys[i] >= e.ys[i - 1] - (IF e.decode THEN 0 ELSE 1) \/ (~e.decode /\ Abs(e.xs[i] - LowThreshold) < 64 /\ Near(e.ys[i], e.ys[i - 1], 16))
Ramp == [i \in 1 .. 256 |-> i - 1]
BytesBack(e) == e.r = Ramp /\ e.g = [i \in 1 .. 256 |-> 256 - i] /\ e.b = [i \in 1 .. 256 |-> ((i - 1) * 7) % 256] /\ e.al = [i \in 1 .. 256 |-> e.a] /\ e.same = [i \in 1 .. 256 |-> 1]
UnitOK(e) == /\ \A i \in Chans : Within(Mul(Soft(e.y[i]), Whole(255)), Whole(e.u[i]), Whole(255), 20)
             /\ Within(Mul(Soft(e.a), Whole(255)), Whole(e.u[4]), Whole(255), 22) /\ e.k.space = "sRGB" /\ IsColor(e.k) /\ e.a = e.k.a /\ (e.u[4] = 255 => e.a = One)
             /\ e.f = "kPremultipliedAlpha" => \A i \in Chans : Close(Mul(Soft(e.k.c[i]), Whole(e.u[4])), Whole(e.u[i]), 20)
ParamsOK(p) == Close(Mul(Soft(p[1]), Whole(211)), Whole(200), 23) /\ Close(Mul(Soft(p[2]), Whole(211)), Whole(11), 23) /\ Close(Mul(Soft(p[3]), Whole(323)), Whole(25), 23) /\ Near(p[4], Threshold, 1) /\ Close(Mul(Soft(p[5]), Whole(5)), Whole(12), 23)
MatricesOK(e) == ToXyzOK(e.space, e.to) /\ Transposed(e.to, e.tor) /\ Transposed(e.from, e.fromr) /\ Inverse(e.to, e.from) /\ Inverse(e.from, e.to) /\ ParamsOK(e.p)
NamedOK(e) == IsColor(e.k) /\ e.k.a = One /\ e.k.space = "sRGB" /\ e.u = Palette[e.n]
\* texts: n / 64 with six digits
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Padded(_, _)
Padded(m, w) == IF w = 0 THEN "" ELSE Padded(m \div 10, w - 1) \o Digits[(m % 10) + 1]
Six(m) == (IF m < 0 THEN "-" ELSE "") \o ToString(Abs(m) \div 64) \o "." \o Padded((Abs(m) % 64) * 15625, 6)
TextOK(e) == /\ e.color = "Color({" \o Six(e.n[1]) \o ", " \o Six(e.n[2]) \o ", " \o Six(e.n[3]) \o ", " \o Six(e.n[4]) \o "}, " \o e.space \o ")"
             /\ e.floats = "RgbaFloat{" \o Six(e.n[1]) \o " " \o Six(e.n[2]) \o " " \o Six(e.n[3]) \o " " \o Six(e.n[4]) \o "}"
Text8OK(e) == e.s = "RgbaUint8{" \o ToString(e.u[1]) \o " " \o ToString(e.u[2]) \o " " \o ToString(e.u[3]) \o " " \o ToString(e.u[4]) \o "}"
FormatName(n) == CASE n = 0 -> "kLinear" [] n = 1 -> "kGammaEncoded" [] n = 2 -> "kPremultipliedAlpha" [] OTHER -> "unknown Color::Format " \o ToString(n)
SpaceName(n) == CASE n = 0 -> "sRGB" [] n = 1 -> "Display-P3" [] OTHER -> "[unknown ColorSpace " \o ToString(n) \o "]"
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "make" -> Made(e.f, e.x, e.a, e.space, e.o.k) /\ Seen(e.o)
    [] e.op = "alpha" -> e.o.k = [k EXCEPT !.a = Clamp01(e.a)] /\ Seen(e.o)
    [] e.op = "clamp" -> Clamped(k, e.o.k) /\ Seen(e.o)
    [] e.op = "scale" -> Scaled(k, e.o.k) /\ Seen(e.o)
    [] e.op = "space" -> SpaceOK(e) /\ Seen(e.o)
    [] e.op = "refuse" -> e.dies = Refused(e.f, e.x, e.a)
    [] e.op = "refuse8" -> e.dies = (e.a = 0 /\ e.v # 0) /\ e.dies2 = e.dies /\ e.fine
    [] e.op = "compare" -> /\ e.eq = Same(e.j, e.k) /\ e.ne = ~e.eq /\ IsColor(e.in) /\ e.in.space = e.j.space /\ (e.k.space = e.j.space => e.in = e.k) /\ NearlyEqual(e.j, e.in, e.nearly)
    [] e.op = "decode" -> Decodes(e.x, e.y) /\ (e.x \in 0 .. One => BackNear(e.x, e.back, 20))
    [] e.op = "encode" -> Encodes(e.y, e.x) /\ (e.y \in 0 .. One => BackNear(e.y, e.back, 20))
    [] e.op = "rise" -> Rising(e)
    [] e.op = "bytes" -> BytesBack(e)
    [] e.op = "unit" -> UnitOK(e)
    [] e.op = "argb" -> Word(e.w[1], e.w[2], e.u[1], e.u[2], e.u[3], e.u[4]) /\ e.q = e.w
    [] e.op = "matrices" -> MatricesOK(e)
    [] e.op = "named" -> NamedOK(e)
    [] e.op = "clear" -> e.k = [c |-> <<0, 0, 0>>, a |-> 0, space |-> "sRGB"] /\ e.d = OpaqueBlack
    [] e.op = "text" -> TextOK(e)
    [] e.op = "text8" -> Text8OK(e)
    [] e.op = "names" -> e.f = FormatName(e.k) /\ e.s = SpaceName(e.k)
Init == l = 1 /\ k = OpaqueBlack
Next == l <= Len(Trace) /\ OK(Trace[l]) = TRUE /\ l' = l + 1 /\ k' = (IF Trace[l].op \in {"make", "alpha", "clamp", "scale", "space"} THEN Trace[l].o.k ELSE k)
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
