---------------------------- MODULE MC_Polylines ----------------------------
(* All rectilinear polylines of up to N segments on a small grid, for some parameters: every outcome keeps the order of what it keeps, nothing is cut off a line   *)
(* that neither crosses nor nearly touches itself, an end is never both cut and joined, and without tolerance for gaps only crossings count. All are replayed.     *)
EXTENDS Polylines, TLC
CONSTANTS N, W, Steps
VARIABLE p
Params == {[walk |-> 1, conn |-> 5, ratio |-> 6, trim |-> 2], [walk |-> 3, conn |-> 9, ratio |-> 4, trim |-> 5], [walk |-> 0, conn |-> 0, ratio |-> 4, trim |-> 4]}
Init == p \in {<<<<0, 0>>>>, <<<<1, 2>>>>}
Next == /\ Len(p) <= N
        /\ \E d \in {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>}, s \in Steps :
             LET x == <<p[Len(p)][1] + s * d[1], p[Len(p)][2] + s * d[2]>> IN
             /\ x[1] \in 0 .. W /\ x[2] \in 0 .. W /\ (Len(p) > 1 => Dir(p, Len(p) - 1) # d /\ Dir(p, Len(p) - 1) # <<-d[1], -d[2]>>)
             /\ p' = Append(p, x)
Full == Len(p) >= 2 /\ Plain(p)
Order == Full => \A q \in Params : \A r \in Outcomes(p, q) : Len(r) > 1 /\ KeepsOrder(p, r)
Cuts == Full /\ Has(p) => LET a == First(p) b == Last(p) IN Before(a, b) /\ Crossings(p) # {} /\ \A c \in Crossings(p) : ~Before(c, a) /\ ~Before(b, c)
Quiet == Full /\ ~Has(p) => Outcomes(p, [walk |-> 0, conn |-> 0, ratio |-> 4, trim |-> 4]) = {p}
Closed == Full /\ Has(p) => \A r \in Outcomes(p, [walk |-> 99, conn |-> 4, ratio |-> 4, trim |-> 4]) : r[1] = Place(p, First(p)) /\ r[Len(r)] = Place(p, Last(p))
\* the rule for any direction is the same one
Scaled(s, k) == [i \in 1 .. Len(s) |-> <<s[i][1] * k, s[i][2] * k>>]
General == Full => PlainG(p) /\ CutTo(p, Scaled(Outcome(p, None, None), 5), 5) /\ CutTo(p, Scaled(Squeeze(Outcome(p, None, None)), 5), 5)
           /\ (Has(p) => FirstG(p)[1] = First(p)[1] /\ LastG(p)[1] = Last(p)[1])
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE ToString(Head(s)[1]) \o " " \o ToString(Head(s)[2]) \o ";" \o Text(Tail(s))
Emit == Full => PrintT("BEH line;" \o Text(p))
=============================================================================
