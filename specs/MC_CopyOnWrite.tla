-------------------------- MODULE MC_CopyOnWrite --------------------------
(* Exhaustive exploration of all call sequences up to Depth over 3 handles; ghost[h] is what a plain, unshared value in    *)
(* handle h would be (-1: none). Emits every maximal sequence for replay on the real code.                                *)
EXTENDS CopyOnWrite, TLC
CONSTANT Depth
VARIABLES s, ghost, hist, n
vars == <<s, ghost, hist, n>>
Init == s = St0 /\ ghost = [h \in Handles |-> -1] /\ hist = "" /\ n = 0
Ops1 == {"reset", "touch"}
Ops2 == {"copy", "cctor", "move", "mctor", "swap"}
OpsV == {"emplace", "mutate"}
Step(op, i, j, v) ==
  /\ Enabled(s, op, i, j)
  /\ s' = Apply(s, op, i, j, v)
  /\ ghost' = CASE op = "reset" -> [ghost EXCEPT ![i] = -1]
                [] op \in {"copy", "cctor"} -> [ghost EXCEPT ![i] = ghost[j]]
                [] op \in {"move", "mctor"} -> [ghost EXCEPT ![i] = ghost[j], ![j] = -1]
                [] op = "swap" -> [ghost EXCEPT ![i] = ghost[j], ![j] = ghost[i]]
                [] op \in OpsV -> [ghost EXCEPT ![i] = v]
                [] OTHER -> ghost
  /\ n' = n + 1
  /\ hist' = hist \o op \o " " \o ToString(i) \o " " \o ToString(j) \o " " \o ToString(v) \o ";"
Next == /\ n < Depth
        /\ \E i \in Handles : \/ \E op \in Ops1 : Step(op, i, i, 0)
                              \/ \E op \in OpsV : Step(op, i, i, n + 1)
                              \/ \E op \in Ops2, j \in Handles : Step(op, i, j, 0)
Spec == Init /\ [][Next]_vars
ReadsLikeAValue == \A h \in Handles : ghost[h] = (IF Has(s, h) THEN Value(s, h) ELSE -1)
NoLeak == Live(s) <= NH
PrivateWrites == [][\A h \in Handles : (s.ref[h] # 0 /\ s'.ref[h] = s.ref[h] /\ Shared(s, h)) => s'.val[s.ref[h]] = s.val[s.ref[h]]]_vars
Emit == n = Depth => PrintT("BEH " \o hist)
=============================================================================
