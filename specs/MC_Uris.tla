------------------------------ MODULE MC_Uris ------------------------------
(* The grammar as a generator (every way to write every value of a small domain) against the recognizer Parse; canonical   *)
(* text is the shortest of them, parses back, and distinguishes values. Texts grow one token at a time.                    *)
EXTENDS Uris, FiniteSets, TLC
CONSTANT Depth
VARIABLES text, n
A == <<97>>
Tokens == {InkScheme \o <<58>>, <<73, 110, 75, 58>>, <<47>>, <<58>>, Texture, BrushFamily, A, <<45>>, <<49>>, <<48>>, <<63>>, InkScheme}
Init == text = <<>> /\ n = 0
Next == n < Depth /\ \E t \in Tokens : text' = text \o t /\ n' = n + 1
Spec == Init /\ [][Next]_<<text, n>>
RoundTrip == LET u == Parse(text) IN u.ok => /\ Parse(Canonical(u)) = u
                                             /\ Len(Canonical(u)) <= Len(text)
                                             /\ Canonical(Parse(Canonical(u))) = Canonical(u)
\* Generator
Regs == {InkScheme, A, <<45, 122>>, Texture}
Names == {A, InkScheme, BrushFamily, <<45>>}
Revs == {1, 2, 10, 999999999}
Values == {[ok |-> TRUE, reg |-> r, type |-> t, name |-> m, rev |-> v] : r \in Regs, t \in {"texture", "brush-family"}, m \in Names, v \in Revs}
Texts(u) == {sc \o rg \o <<47>> \o (IF u.type = "texture" THEN Texture ELSE BrushFamily) \o <<58>> \o u.name \o rv :
               sc \in {<<>>, InkScheme \o <<58>>, <<73, 78, 75, 58>>},
               rg \in {<<47, 47>> \o u.reg} \cup (IF u.reg = InkScheme THEN {<<>>} ELSE {}),
               rv \in {<<58>> \o Decimal(u.rev)} \cup (IF u.rev = 1 THEN {<<>>} ELSE {})}
ASSUME \A u \in Values : \A x \in Texts(u) : Parse(x) = u
ASSUME \A u \in Values : Canonical(u) \in Texts(u) /\ \A x \in Texts(u) : Len(Canonical(u)) <= Len(x)
ASSUME Cardinality({Canonical(u) : u \in Values}) = Cardinality(Values)
ASSUME Canonical(Default) = <<>> /\ Parse(<<>>) = Default
=============================================================================
