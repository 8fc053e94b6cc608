--------------------------- MODULE MC_Partitions ---------------------------
(* All short sequences of triangles, up to renaming their vertices in the order they first appear: the greedy way of splitting them is a partition for every     *)
(* limit, and no worse than any partition into consecutive runs. They are split by the code as well.                                                             *)
EXTENDS Meshes, TLC
CONSTANTS Depth, Limits
VARIABLES ts
Seen == UNION {Range(ts[i]) : i \in 1 .. Len(ts)}
N == Cardinality(Seen)
\* corners: old ones, or new ones in order
Canonical(x) == LET new == {k \in 1 .. 3 : x[k] >= N} IN \A k \in new : x[k] = N + Cardinality({j \in new : j < k})
Init == ts = <<>>
Next == Len(ts) < Depth /\ \E x \in (0 .. N + 2) \X (0 .. N + 2) \X (0 .. N + 2) : (ThreeDistinct(x) /\ Canonical(x)) = TRUE /\ ts' = Append(ts, x)
G(max) == Greedy(ts, max, <<[v |-> <<>>, t |-> <<>>]>>)
Partitions == \A max \in Limits : PartitionOf(ts, max, G(max))
\* the fewest runs
Width(a, b) == Cardinality(UNION {Range(ts[i]) : i \in a .. b})
RECURSIVE Fewest(_, _)
Fewest(b, max) == IF b = 0 THEN 0 ELSE MinOf({1 + Fewest(a - 1, max) : a \in {a \in 1 .. b : Width(a, b) <= max}})
Best == ts # <<>> => \A max \in Limits : Len(G(max)) = Fewest(Len(ts), max)
\* a wider limit never splits more
Monotone == \A a, b \in Limits : a <= b => Len(G(b)) <= Len(G(a))
Text == LET f[i \in 0 .. Len(ts)] == IF i = 0 THEN "" ELSE f[i - 1] \o ToString(ts[i][1]) \o " " \o ToString(ts[i][2]) \o " " \o ToString(ts[i][3]) \o ";" IN f[Len(ts)]
Emit == Len(ts) = Depth => PrintT("BEH " \o Text)
Spec == Init /\ [][Next]_ts
=============================================================================
