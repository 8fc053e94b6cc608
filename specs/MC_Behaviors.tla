---------------------------- MODULE MC_Behaviors ----------------------------
(* All node lists up to N nodes: running the stack discipline and parsing the list as complete trees agree; the lists are replayed in the real code. *)
EXTENDS Behaviors, TLC
CONSTANTS N, All    \* All: also emit the incomplete lists
VARIABLES ns
Init == ns = <<>>
Next == Len(ns) < N /\ \E k \in Kinds \ {"L", "K"} : ns' = Append(ns, k)
Agree == Complete(ns) <=> IsForest(ns)
Possible == Depth(ns, Len(ns)) >= 0
RECURSIVE Text(_, _)
Text(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o ";" \o Text(s, i + 1)
Emit == IF Len(ns) > 0 /\ (All = 1 \/ Complete(ns)) THEN PrintT("BEH " \o Text(ns, 1)) ELSE TRUE
Limit == All = 1 \/ Possible
=============================================================================
