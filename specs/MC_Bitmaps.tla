----------------------------- MODULE MC_Bitmaps -----------------------------
(* Digit arithmetic agrees with machine arithmetic where that does not overflow, and with the distributive law where it does. *)
EXTENDS Bitmaps, TLC
CONSTANT N
VARIABLES a, b
Interesting == {0, 1, 2, 3, 7, 1023, 1024, 1025, 4095, 46340, 65535, 65536, 1048575, 1048576, 2147483647}
Init == a \in (0 .. N) \cup Interesting /\ b \in (0 .. N) \cup Interesting
Next == UNCHANGED <<a, b>>
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE s[1] + Base * Value(Tail(s))
Plus(x, y) == LET n == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y) IN Strip(CarryFrom([k \in 1 .. n |-> (IF k <= Len(x) THEN x[k] ELSE 0) + (IF k <= Len(y) THEN y[k] ELSE 0)], 1, 0))
Round == Value(Digits(a)) = a /\ Value(Digits(b)) = b
Product == (a <= 46340 /\ b <= 46340) => Value(Times(Digits(a), Digits(b))) = a * b
Sym == Times(Digits(a), Digits(b)) = Times(Digits(b), Digits(a))
Dist == a > 0 => Times(Digits(a), Digits(b)) = Plus(Times(Digits(a - 1), Digits(b)), Digits(b))
\* one more pixel row always needs more bytes: an acceptable size is never wrapped around
Grows == (a > 0 /\ b > 1) => Needed(a, b, "kRgba8888") # Needed(a, b - 1, "kRgba8888")
=============================================================================
