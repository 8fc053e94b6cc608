---------------------------- MODULE CopyOnWrite ----------------------------
(* Handles to shared, copy-on-write objects. ref[h] is the object of handle h (0: none), val[o] the value of object o.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NH
Handles == 1..NH
St0 == [ref |-> [h \in Handles |-> 0], val |-> <<>>]
Has(s, h) == s.ref[h] # 0
Value(s, h) == s.val[s.ref[h]]
Owners(s, o) == {h \in Handles : s.ref[h] = o}
Shared(s, h) == Has(s, h) /\ Cardinality(Owners(s, s.ref[h])) > 1
Live(s) == Cardinality({s.ref[h] : h \in Handles} \ {0})
New(s, h, v) == [ref |-> [s.ref EXCEPT ![h] = Len(s.val) + 1], val |-> Append(s.val, v)]
\* Each operation: the new state and the number of objects copied
Emplace(s, h, v) == New(s, h, v)
Copy(s, i, j) == [s EXCEPT !.ref[i] = s.ref[j]]
Move(s, i, j) == [s EXCEPT !.ref[i] = s.ref[j], !.ref[j] = 0]
Swap(s, i, j) == [s EXCEPT !.ref[i] = s.ref[j], !.ref[j] = s.ref[i]]
Reset(s, h) == [s EXCEPT !.ref[h] = 0]
Mutate(s, h, v) == IF Shared(s, h) THEN New(s, h, v) ELSE [s EXCEPT !.val[s.ref[h]] = v]
Touch(s, h) == IF Shared(s, h) THEN New(s, h, Value(s, h)) ELSE s
Apply(s, op, i, j, v) ==
  CASE op = "emplace" \/ op = "ctor" -> Emplace(s, i, v)
    [] op = "copy" \/ op = "cctor" -> Copy(s, i, j)
    [] op = "move" \/ op = "mctor" -> Move(s, i, j)
    [] op = "swap" -> Swap(s, i, j)
    [] op = "reset" -> Reset(s, i)
    [] op = "mutate" -> Mutate(s, i, v)
    [] op = "touch" -> Touch(s, i)
Copies(s, op, i) == IF op \in {"mutate", "touch"} /\ Shared(s, i) THEN 1 ELSE 0
Enabled(s, op, i, j) == /\ op \in {"mutate", "touch"} => Has(s, i)
                        /\ op \in {"cctor", "move", "mctor", "swap"} => i # j
=============================================================================
