----------------------------- MODULE MC_Packing -----------------------------
(* Integers of every packed type laid into words: nothing overlaps, nothing is lost, and rounding to a step is to the nearest one. All tuples are replayed. *)
EXTENDS Meshes, TLC
CONSTANT Full
VARIABLES type, xs
Edge(b) == {0, 1, MaxFor(b) - 1, MaxFor(b)} \cup {Pow2(b - 1)} \cup (IF Full THEN {Pow2(k) : k \in 0 .. b - 1} \cup {(2 * MaxFor(b)) \div 3} ELSE {(2 * MaxFor(b)) \div 3})
Init == type \in {y \in TypeNames : ~Unpacked(y)} /\ xs = <<>>
Next == Len(xs) < Types[type].n /\ \E x \in Edge(Bits(type)[Len(xs) + 1]) : xs' = Append(xs, x) /\ UNCHANGED type
Done == Len(xs) = Types[type].n
Invertible == Done => LET w == Pack(type, xs) IN Unpack(type, w) = xs /\ \A i \in 1 .. Len(w) : w[i] \in 0 .. Pow2(Word(type)) - 1
\* each component has its own bits: changing one leaves the bits of the others alone
Separate == Done => \A c \in 1 .. Len(xs) : LET z == [k \in 1 .. Len(xs) |-> IF k = c THEN xs[k] ELSE 0] IN
  Unpack(type, Pack(type, z)) = z /\ Pack(type, xs) = [w \in 1 .. Words(type) |-> Pack(type, z)[w] + Pack(type, [xs EXCEPT ![c] = 0])[w]]
SizesAgree == Words(type) * (IF Types[type].into = "bytes" THEN 1 ELSE 4) = PackedSize(type)
\* the left-over bits are zero
LeftOver == (Done /\ Types[type].into = "bytes") => LET over == Words(type) * 8 - Sum(Bits(type)) IN Pack(type, xs)[Words(type)] % Pow2(over) = 0
Rounds == Done => \A s \in {1, 2, 8} : \A d \in 0 .. s : LET k == Round(xs[1] * s + d, s) IN 2 * AbsV(k * s - (xs[1] * s + d)) <= s
RECURSIVE Text(_, _)
Text(s, i) == IF i > Len(s) THEN "" ELSE " " \o ToString(s[i]) \o Text(s, i + 1)
Emit == Done => PrintT("BEH " \o type \o Text(xs, 1))
=============================================================================
