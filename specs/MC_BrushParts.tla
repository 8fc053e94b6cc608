---------------------------- MODULE MC_BrushParts ----------------------------
(* Brushes as objects: every sequence of creations, setters and copies over two brushes; the sequences are replayed in the real code. *)
EXTENDS BrushParts, TLC
CONSTANT N
VARIABLES bs, h, n
Val == <<-1, 0, 1, One - 1, One, One + 1, Two, Inf - 1, Inf, Nan>>     \* the sizes and epsilons used, by index
Idx == {2, 3, 4, 5, 6, 9, 10}
Init == bs = [i \in 1 .. 2 |-> [family |-> 0, color |-> 0, size |-> One, eps |-> 1036831949]] /\ h = "" /\ n = 0
Text(a, b, c, d) == h \o a \o " " \o ToString(b) \o " " \o ToString(c) \o " " \o ToString(d) \o ";"
Create(i, s, e) == /\ bs' = IF BrushValid(Val[s], Val[e]) THEN [bs EXCEPT ![i] = [family |-> n + 1, color |-> n + 1, size |-> Val[s], eps |-> Val[e]]] ELSE bs
                   /\ h' = Text("create", i, s, e)
SetSize(i, s) == bs' = (IF SetSizeOK(bs[i], Val[s]) THEN [bs EXCEPT ![i].size = Val[s]] ELSE bs) /\ h' = Text("size", i, s, 0)
SetEps(i, e) == bs' = (IF SetEpsOK(bs[i], Val[e]) THEN [bs EXCEPT ![i].eps = Val[e]] ELSE bs) /\ h' = Text("eps", i, e, 0)
SetColor(i) == bs' = [bs EXCEPT ![i].color = n + 1] /\ h' = Text("color", i, n + 1, 0)
SetFamily(i) == bs' = [bs EXCEPT ![i].family = n + 1] /\ h' = Text("family", i, n + 1, 0)
Copy(i) == bs' = [bs EXCEPT ![3 - i] = bs[i]] /\ h' = Text("copy", i, 0, 0)
Next == n < N /\ n' = n + 1 /\ \E i \in 1 .. 2 : \/ \E s \in {4, 5, 7}, e \in {1, 3, 5} : Create(i, s, e)
                                                 \/ \E s \in Idx : SetSize(i, s) \/ SetEps(i, s)
                                                 \/ SetColor(i) \/ SetFamily(i) \/ Copy(i)
Always == \A i \in 1 .. 2 : BrushValid(bs[i].size, bs[i].eps)
Emit == IF n = N THEN PrintT("BEH " \o h) ELSE TRUE
=============================================================================
