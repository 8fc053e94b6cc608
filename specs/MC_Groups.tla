------------------------------ MODULE MC_Groups ------------------------------
(* All small lists of groups of meshes with outlines, good and bad: how they are kept one after the other and found again, and which of them are refused. All    *)
(* are given to the code. Meshes have three vertices.                                                                                                           *)
EXTENDS Meshes, TLC
CONSTANTS MaxMeshesPer, MaxOutline
VARIABLES gs, step
MeshesHere == UNION {[1 .. k -> [n : {3}, t : {0, 1}, f : {1, 2}]] : k \in 0 .. MaxMeshesPer}
Pairs == [m : {0, 1}, v : {0, 2, 3}]
Outlines == UNION {[1 .. k -> Pairs] : k \in 0 .. MaxOutline}
First == [meshes : MeshesHere, outlines : {<<>>} \cup {<<o>> : o \in Outlines} \cup {<<<<[m |-> 0, v |-> 0]>>, o>> : o \in {p \in Outlines : Len(p) <= 1}}]
Good == [n |-> 3, t |-> 1, f |-> 2]
Others == [meshes : {<<>>, <<Good>>, <<[Good EXCEPT !.t = 0]>>}, outlines : {<<>>, <<<<[m |-> 0, v |-> 1]>>>>, <<<<>>>>}]
\* the larger group comes first or last
Init == gs = <<>> /\ step = 0
Next == step < 2 /\ step' = step + 1 /\
  \/ step = 0 /\ \E g \in First : gs' = <<g>>
  \/ step = 1 /\ \E g \in Others : gs' = gs \o <<g>> \/ gs' = <<g>> \o gs
\* kept in one list
RECURSIVE Flat(_)
Flat(x) == IF x = <<>> THEN <<>> ELSE Head(x).meshes \o Flat(Tail(x))
RECURSIVE FlatO(_)
FlatO(x) == IF x = <<>> THEN <<>> ELSE Head(x).outlines \o FlatO(Tail(x))
FirstMesh(i) == Total(SubSeq(gs, 1, i - 1))
FirstOutline(i) == Len(FlatO(SubSeq(gs, 1, i - 1)))
Slice(i) == SubSeq(Flat(gs), FirstMesh(i) + 1, IF i < Len(gs) THEN FirstMesh(i + 1) ELSE Len(Flat(gs)))
SliceO(i) == SubSeq(FlatO(gs), FirstOutline(i) + 1, IF i < Len(gs) THEN FirstOutline(i + 1) ELSE Len(FlatO(gs)))
Kept2 == \A i \in 1 .. Len(gs) : Slice(i) = gs[i].meshes /\ SliceO(i) = gs[i].outlines
\* every group accepted alone is what it takes, and no outline of an accepted list is empty or points outside its group
Parts == GroupsOK(gs) = IF \A i \in 1 .. Len(gs) : GroupsOK(<<gs[i]>>) = "yes" THEN "yes" ELSE "no"
Inside == GroupsOK(gs) = "yes" => \A i \in 1 .. Len(gs) : \A o \in 1 .. Len(gs[i].outlines) : gs[i].outlines[o] # <<>> /\ \A j \in 1 .. Len(gs[i].outlines[o]) : LET x == gs[i].outlines[o][j] IN x.v < Slice(i)[x.m + 1].n
Empty == GroupsOK([i \in 1 .. step |-> [meshes |-> <<>>, outlines |-> <<>>]]) = "yes"
RECURSIVE Ms(_), Ps(_), Os(_), Gs(_)
Ms(x) == IF x = <<>> THEN "" ELSE "m " \o ToString(Head(x).f) \o " " \o ToString(Head(x).n) \o " " \o ToString(Head(x).t) \o ";" \o Ms(Tail(x))
Ps(x) == IF x = <<>> THEN "" ELSE " " \o ToString(Head(x).m) \o " " \o ToString(Head(x).v) \o Ps(Tail(x))
Os(x) == IF x = <<>> THEN "" ELSE "o" \o Ps(Head(x)) \o ";" \o Os(Tail(x))
Gs(x) == IF x = <<>> THEN "" ELSE "g;" \o Ms(Head(x).meshes) \o Os(Head(x).outlines) \o Gs(Tail(x))
Emit == step > 0 => PrintT("BEH " \o Gs(gs))
Spec == Init /\ [][Next]_<<gs, step>>
=============================================================================
