-------------------------- MODULE MC_SpatialIndex --------------------------
(* Every tree obtained by repeatedly gathering up to B roots under a new node, over every choice of boxes: searching it     *)
(* visits exactly the elements that meet the query, each once.                                                             *)
EXTENDS SpatialIndex, TLC
CONSTANTS N, W, B
VARIABLES boxes, roots
Boxes == {b \in (0..W) \X (0..1) \X (0..W) \X (0..1) : b[1] <= b[3] /\ b[2] <= b[4]}
Init == boxes \in [1..N -> Boxes] /\ roots = [i \in 1..N |-> <<"leaf", i>>]
\* gather a set of roots (all of them when they fit)
Gather(S) == LET ks == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] < s[j]
                 node == <<"node", Union({Box(boxes, roots[k]) : k \in S}), [i \in 1..Len(ks) |-> roots[ks[i]]]>>
                 rest == SelectSeq([k \in 1..Len(roots) |-> k], LAMBDA k : k \notin S)
             IN roots' = Append([i \in 1..Len(rest) |-> roots[rest[i]]], node)
Next == Len(roots) > 1 /\ (\E S \in SUBSET (1..Len(roots)) : Cardinality(S) \in 2..B /\ Gather(S)) /\ UNCHANGED boxes
SearchIsAnswer == Len(roots) = 1 => \A q \in Boxes : LET s == Search(boxes, roots[1], q) IN Allowed(boxes, q, 0, s)
=============================================================================
