----------------------------- MODULE MC_Strokes -----------------------------
(* All sequences of setters on two strokes over small tables; each transition emitted for replay. *)
EXTENDS Strokes, TLC
CONSTANTS Fams, Colors, SizeKeys, EpsKeys, InKeys, NH
VARIABLES k, hist
vars == <<k, hist>>
Size(i) == CASE i = 1 -> 1084227584 [] i = 2 -> 1092616192 [] i = 3 -> 0 [] i = 4 -> Nan [] i = 5 -> Inf [] OTHER -> 0 - 1084227584       \* 5, 10, 0, NaN, inf, -5
Eps(i) == CASE i = 1 -> 1056964608 [] i = 2 -> 1088421888 [] i = 3 -> 0 [] i = 4 -> Nan [] i = 5 -> Inf [] OTHER -> 0 - 1056964608       \* .5, 7, 0, NaN, inf, -.5
FamOf(i) == <<i \div 100, (i \div 10) % 10, i % 10>>
S(n) == " " \o ToString(n)
Do(h, new, txt) == k' = [k EXCEPT ![h] = new] /\ hist' = hist \o txt \o ";" /\ PrintT("BEH " \o hist')
F0 == CHOOSE f \in Fams : \A g \in Fams : f <= g
Init == k = [h \in 1..NH |-> Make(FamOf(F0), 1, Size(1), Eps(1), 0)] /\ hist = ""
Next == \E h \in 1..NH :
  \/ \E f \in Fams, i, j \in {1, 2} : BrushOk(Size(i), Eps(j)) /\ Do(h, SetBrush(k[h], FamOf(f), 2, Size(i), Eps(j)), "brush" \o S(h) \o S(f) \o " 2" \o S(i) \o S(j))
  \/ \E f \in Fams : Do(h, SetFamily(k[h], FamOf(f)), "family" \o S(h) \o S(f))
  \/ \E c \in Colors : Do(h, SetColor(k[h], c), "color" \o S(h) \o S(c))
  \/ \E i \in SizeKeys : Do(h, SetSize(k[h], Size(i)), "size" \o S(h) \o S(i))
  \/ \E i \in EpsKeys : Do(h, SetEps(k[h], Eps(i)), "eps" \o S(h) \o S(i))
  \/ \E i \in InKeys : Do(h, SetInputs(k[h], i), "inputs" \o S(h) \o S(i))
  \/ Do(h, SetInputs(k[h], k[h].ins), "own" \o S(h))
  \/ \E g \in 1..NH : g # h /\ Do(h, k[g], "copy" \o S(h) \o S(g))
  \/ Do(h, [k[h] EXCEPT !.shape = Given(k[h].fam[1])], "given" \o S(h))
Spec == Init /\ [][Next]_vars
View == k
Valid == \A h \in 1..NH : BrushOk(k[h].size, k[h].eps)
\* Unless given, the shape is that of the stroke's own tips, size, epsilon and inputs
Corresponds == \A h \in 1..NH : LET s == k[h] IN s.shape[1] = "gen" => (s.shape[2][1] = s.fam[1] /\ s.shape[3] = s.size /\ s.shape[4] = s.eps /\ s.shape[5] = s.ins)
=============================================================================
