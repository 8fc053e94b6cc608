----------------------------- MODULE MC_Envelopes -----------------------------
\* Two envelopes, all histories up to Depth: each box is the hull of what was added since the last reset, in whatever order.
EXTENDS Envelopes, TLC, FiniteSets
CONSTANTS Depth, C          \* coordinates 0..C
VARIABLES box, pts, hist, n
P == {<<x, y>> : x, y \in 0..C}
S(p) == ToString(p[1]) \o " " \o ToString(p[2])
Init == box = [h \in 1..2 |-> <<>>] /\ pts = [h \in 1..2 |-> {}] /\ hist = "" /\ n = 0
Do(op, h, t) == n' = n + 1 /\ hist' = hist \o op \o " " \o ToString(h) \o t \o ";"
AddSeq(op, h, Q, t) == box' = [box EXCEPT ![h] = AddPts(@, Q)] /\ pts' = [pts EXCEPT ![h] = @ \cup {Q[i] : i \in 1..Len(Q)}] /\ Do(op, h, t)
Some == {<<0, C>>, <<1, 1>>}     \* keeps the larger objects' number down
Next == n < Depth /\ \E h \in 1..2 :
  \/ \E p \in P : AddSeq("pt", h, <<p>>, " " \o S(p))
  \/ \E p \in Some, q \in P : AddSeq("seg", h, <<p, q>>, " " \o S(p) \o " " \o S(q))
  \/ \E p \in Some, q \in Some, r \in P : AddSeq("tri", h, <<p, q, r>>, " " \o S(p) \o " " \o S(q) \o " " \o S(r))
  \/ \E p \in Some, q \in P : AddSeq("rect", h, << <<Lo(p[1], q[1]), Lo(p[2], q[2])>>, <<Hi(p[1], q[1]), Hi(p[2], q[2])>> >>, " " \o S(p) \o " " \o S(q))
  \/ \E k \in 0..3 : AddSeq("many", h, [i \in 1..k |-> <<i % (C + 1), (i * i) % (C + 1)>>], " " \o ToString(k))
  \/ box' = [box EXCEPT ![h] = AddBox(@, box[3 - h])] /\ pts' = [pts EXCEPT ![h] = @ \cup pts[3 - h]] /\ Do("env", h, "")
  \/ box' = [box EXCEPT ![h] = box[3 - h]] /\ pts' = [pts EXCEPT ![h] = pts[3 - h]] /\ Do("copy", h, "")
  \/ box' = [box EXCEPT ![h] = <<>>] /\ pts' = [pts EXCEPT ![h] = {}] /\ Do("reset", h, "")
Spec == Init /\ [][Next]_<<box, pts, hist, n>>
Hull == \A h \in 1..2 : IsHull(box[h], pts[h])
Emit == n = Depth => PrintT("BEH " \o hist)
=============================================================================
