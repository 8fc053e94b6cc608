---------------------------- MODULE SmallArrays ----------------------------
(* Bounded sequences: contents of handles 1..NH, each a sequence of at most Cap values; 0 is the default value.            *)
EXTENDS Integers, Sequences
CONSTANTS NH, Cap
Fill(n, v) == [k \in 1..n |-> v]
Resize(q, n, v) == IF n <= Len(q) THEN SubSeq(q, 1, n) ELSE q \o Fill(n - Len(q), v)
\* effect of one call on the contents q of all handles
Apply(q, op, i, j, n, v) ==
  CASE op = "count"  -> [q EXCEPT ![i] = Fill(n, 0)]            \* SmallArray(n)
    [] op = "fill"   -> [q EXCEPT ![i] = Fill(n, v)]            \* SmallArray(n, v)
    [] op = "list"   -> [q EXCEPT ![i] = [k \in 1..n |-> v + k]]
    [] op = "span"   -> [q EXCEPT ![i] = [k \in 1..n |-> v + k]]
    [] op = "grow"   -> [q EXCEPT ![i] = Resize(q[i], n, 0)]    \* Resize(n)
    [] op = "resize" -> [q EXCEPT ![i] = Resize(q[i], n, v)]    \* Resize(n, v)
    [] op = "own"    -> [q EXCEPT ![i] = Resize(q[i], n, q[i][1])]   \* Resize(n, a[0]): the fill value is an own element
    [] op = "set"    -> [q EXCEPT ![i][n] = v]
    [] op = "spanset" -> [q EXCEPT ![i][n] = v]
    [] op = "copy"   -> [q EXCEPT ![i] = q[j]]
    [] op = "cctor"  -> [q EXCEPT ![i] = q[j]]
    [] op = "move"   -> [q EXCEPT ![i] = q[j], ![j] = <<>>]     \* the harness gives the source a fresh value afterwards
Enabled(q, op, i, j, n) == /\ n <= Cap
                           /\ op \in {"set", "spanset"} => n \in 1..Len(q[i])
                           /\ op = "own" => q[i] # <<>>
                           /\ op = "move" => i # j
=============================================================================
