--------------------------- MODULE SpatialIndex ---------------------------
(* A static R-tree: any way of gathering elements into a tree whose nodes' boxes contain their children gives the same     *)
(* answers as looking at every element, provided the descent prunes only children whose box misses the query.              *)
(* Boxes are <<xmin, ymin, xmax, ymax>>; only the order of coordinates matters.                                            *)
EXTENDS Integers, Sequences, FiniteSets
Meets(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]
Lo(S) == CHOOSE x \in S : \A y \in S : x <= y
Hi(S) == CHOOSE x \in S : \A y \in S : x >= y
Union(B) == <<Lo({b[1] : b \in B}), Lo({b[2] : b \in B}), Hi({b[3] : b \in B}), Hi({b[4] : b \in B})>>
\* The contract: what a query visits, and what it may visit when the visitor stops after `after` elements (0: never).
Answer(boxes, q) == {i \in 1..Len(boxes) : Meets(boxes[i], q)}
Allowed(boxes, q, after, seen) ==
  LET S == {seen[i] : i \in 1..Len(seen)}  A == Answer(boxes, q)
  IN Cardinality(S) = Len(seen) /\ S \subseteq A /\ (IF after > 0 /\ after < Cardinality(A) THEN Len(seen) = after ELSE S = A)
\* A tree is a leaf <<"leaf", i>> or a node <<"node", box, children>>.
Box(boxes, t) == IF t[1] = "leaf" THEN boxes[t[2]] ELSE t[2]
RECURSIVE Search(_, _, _)
Search(boxes, t, q) == IF ~Meets(Box(boxes, t), q) THEN <<>>
                       ELSE IF t[1] = "leaf" THEN <<t[2]>>
                       ELSE LET RECURSIVE f(_) f(k) == IF k > Len(t[3]) THEN <<>> ELSE Search(boxes, t[3][k], q) \o f(k + 1) IN f(1)
=============================================================================
