--------------------------- MODULE MC_SmallArrays ---------------------------
EXTENDS SmallArrays, TLC
CONSTANT Depth
VARIABLES q, hist, n
Init == q = [h \in 1..NH |-> <<>>] /\ hist = "" /\ n = 0
Step(op, i, j, m, v) == /\ Enabled(q, op, i, j, m) /\ q' = Apply(q, op, i, j, m, v) /\ n' = n + 1
  /\ hist' = hist \o op \o " " \o ToString(i) \o " " \o ToString(j) \o " " \o ToString(m) \o " " \o ToString(v) \o ";"
Next == n < Depth /\ \E i \in 1..NH :
  \/ \E m \in 0..Cap : \E op \in {"count", "grow"} : Step(op, i, i, m, 0)
  \/ \E m \in 0..Cap : \E op \in {"fill", "list", "resize"} : Step(op, i, i, m, 10 * (n + 1))
  \/ \E m \in 0..Cap : Step("own", i, i, m, 0)
  \/ \E m \in 1..Cap : Step("set", i, i, m, 10 * (n + 1) + 5)
  \/ \E j \in 1..NH, op \in {"copy", "move"} : Step(op, i, j, 0, 0)
Spec == Init /\ [][Next]_<<q, hist, n>>
Bounded == \A h \in 1..NH : Len(q[h]) <= Cap
Emit == n = Depth => PrintT("BEH " \o hist)
=============================================================================
