--------------------------- MODULE MC_MeshFormats ---------------------------
(* Lists grown one attribute at a time: layouts are gapless, removing keeps formats valid and ordered, and the agreements are equivalences that nest. *)
(* All lists (valid or not), with what to remove, are replayed into the code.                                                                       *)
EXTENDS MeshFormats, TLC
CONSTANTS N, Ts, Ids
VARIABLES as, rem
Init == as = <<>> /\ rem = {}
Next == \/ rem = {} /\ Len(as) < N /\ \E t \in Ts, id \in Ids : as' = Append(as, [t |-> t, id |-> id]) /\ UNCHANGED rem
        \/ rem = {} /\ \E r \in SUBSET Ids \ {{}} : rem' = r /\ UNCHANGED as
Gapless == Valid(as) => LET y == Layout(as) IN
  /\ y[1].uo = 0 /\ y[1].po = 0
  /\ \A i \in 1 .. Len(as) - 1 : y[i + 1].uo = y[i].uo + y[i].uw /\ y[i + 1].po = y[i].po + y[i].pw
  /\ StrideU(as) = y[Len(as)].uo + y[Len(as)].uw /\ StrideP(as) = y[Len(as)].po + y[Len(as)].pw
  /\ \A i \in 1 .. Len(as) : y[i].pw <= y[i].uw /\ (Unpacked(as[i].t) => y[i].pw = y[i].uw)
Removal == (Valid(as) /\ CanRemove(as, rem)) => LET w == Without(as, rem) IN
  /\ Valid(w) /\ Len(w) = Len(as) - Cardinality(rem)
  /\ \A i, j \in 1 .. Len(w) : i < j => \E k, m \in 1 .. Len(as) : k < m /\ as[k] = w[i] /\ as[m] = w[j]
  /\ (PackedEq(w, as) <=> rem = {})
\* sizes given in the names of the packings
Named == PackedSize("kFloat3PackedIn2Floats") = 8 /\ PackedSize("kFloat4PackedIn3Floats") = 12 /\ PackedSize("kFloat2PackedIn3UnsignedBytes_XY12") = 3 /\ PackedSize("kFloat3PackedIn4UnsignedBytes_XYZ10") = 4
         /\ PackedSize("kFloat2PackedIn4UnsignedBytes_X12_Y20") = 4 /\ PackedSize("kFloat1PackedIn1UnsignedByte") = 1 /\ PackedSize("kFloat4PackedIn1Float") = 4 /\ PackedSize("kFloat4PackedIn2Floats") = 8
Swap(t) == CHOOSE u \in TypeNames : Types[u].n = Types[t].n /\ u # t
Agreement == LET bs == [i \in 1 .. Len(as) |-> [as[i] EXCEPT !.t = IF as[i].t \in TypeNames THEN Swap(as[i].t) ELSE @]] IN
  Valid(as) => Valid(bs) /\ UnpackedEq(as, bs) /\ ~PackedEq(as, bs) /\ UnpackedEq(as, as) /\ PackedEq(as, as)
RECURSIVE Text(_, _)
Text(s, i) == IF i > Len(s) THEN "" ELSE "a " \o s[i].t \o " " \o s[i].id \o ";" \o Text(s, i + 1)
RECURSIVE RText(_)
RText(r) == IF r = {} THEN "" ELSE LET x == CHOOSE x \in r : TRUE IN "r " \o x \o ";" \o RText(r \ {x})
Emit == (rem # {} \/ Len(as) = N \/ as = <<>>) => PrintT("BEH " \o (IF as = <<>> /\ rem = {} THEN "e;" ELSE Text(as, 1) \o RText(rem)))
=============================================================================
