------------------------------ MODULE Bitmaps ------------------------------
(* Raw bitmaps: sizes, formats and the number of bytes they need. Numbers that may exceed 32 bits are little endian digit     *)
(* sequences in base 1024 without trailing zeros.                                                                              *)
EXTENDS Integers, Sequences
Base == 1024
RECURSIVE Digits(_), Strip(_), CarryFrom(_, _, _)
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Digits(n \div Base)
Strip(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* digits of a sequence of sums (each below 2^31)
CarryFrom(s, i, c) == IF i > Len(s) THEN Digits(c) ELSE <<(s[i] + c) % Base>> \o CarryFrom(s, i + 1, (s[i] + c) \div Base)
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, i) == IF i > Len(a) THEN 0 ELSE (IF k - i + 1 >= 1 /\ k - i + 1 <= Len(b) THEN a[i] * b[k - i + 1] ELSE 0) + Conv(a, b, k, i + 1)
Times(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Strip(CarryFrom([k \in 1 .. Len(a) + Len(b) - 1 |-> Conv(a, b, k, 1)], 1, 0))
BytesPerPixel == [kRgba8888 |-> 4]
Needed(w, h, f) == Times(Times(Digits(w), Digits(h)), Digits(BytesPerPixel[f]))
Acceptable(b) ==
  /\ b.w > 0 /\ b.h > 0
  /\ b.pixel \in DOMAIN BytesPerPixel /\ b.color \in {"kLinear", "kGammaEncoded", "kPremultipliedAlpha"} /\ b.space \in {"kSrgb", "kDisplayP3"}
  /\ b.bytes = Needed(b.w, b.h, b.pixel)
=============================================================================
