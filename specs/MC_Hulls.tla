------------------------------ MODULE MC_Hulls ------------------------------
(* Graham's scan, and the pruning before it, on all sequences of points of a small grid, duplicates included: whatever order the sorting leaves equals in, the  *)
(* result is the hull. (Taking the horizontal distance only, instead of the distance, fails: Vertical.) The sequences are replayed on the real code.           *)
EXTENDS Hulls, TLC
CONSTANTS N, W, H
VARIABLE ps
Init == ps = <<>>
Next == Len(ps) < N /\ \E x \in 0 .. W - 1, y \in 0 .. H - 1 : ps' = Append(ps, <<x, y>>)
Hulls == ps # <<>> => \A h \in Graham(ps, Around) : HullOf(ps, h)
Starts == ps # <<>> => \A h \in Graham(ps, Around) : h[1] = Lowest({ps[i] : i \in 1 .. Len(ps)})
Prunes == ps # <<>> => LET s == Lowest({ps[i] : i \in 1 .. Len(ps)}) IN \A r \in Pruned(ps, TRUE) : \A h \in Graham(<<s>> \o r, Around) : HullOf(ps, h)
Vertical == ps # <<>> => \A h \in Graham(ps, Aside) : HullOf(ps, h)        \* does not hold
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE ToString(Head(s)[1]) \o " " \o ToString(Head(s)[2]) \o ";" \o Text(Tail(s))
Emit == ps # <<>> => PrintT("BEH hull;" \o Text(ps))
ASSUME \E h \in Graham(<<<<0, 0>>, <<0, 2>>, <<0, 1>>>>, Aside) : ~HullOf(<<<<0, 0>>, <<0, 2>>, <<0, 1>>>>, h)
Square == <<<<0, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>>, <<1, 1>>>>
ASSUME \E r \in Pruned(Square, FALSE) : \A h \in Graham(<<<<0, 0>>>> \o r, Around) : ~HullOf(Square, h)
=============================================================================
