-------------------------- MODULE MC_InputBatches --------------------------
(* All reachable contents of NH handles over a table of inputs, up to MaxLen inputs each, and how they share storage;      *)
(* every transition (accepted and refused calls) is emitted with a shortest path to it, for replay on real batches.        *)
EXTENDS InputBatches, TLC, FiniteSets
CONSTANTS NH, MaxLen, Keys
VARIABLES q, sto, hist          \* sto[h]: name of the storage of h (ghost: what copy-on-write may share)
vars == <<q, sto, hist>>
In(tool, x, t, u, p, ti, o) == <<tool, x, 0, t, u, p, ti, o>>
Half == 1056964608
N == MinusOne
Table == << In(1, 0, 0, 0, N, N, N), In(1, One, 0, 0, N, N, N), In(1, 0, One, 0, N, N, N), In(2, One, One, 0, N, N, N), In(1, One, One, 0, Half, N, N),
            In(1, One, One, Half, N, N, N), In(1, Nan, One, 0, N, N, N), In(3, One, One, One, One, HalfPi, TwoPi), In(3, One, Half, One, 0, 0, 0),
            In(1, One, One, 0, N, One, N), In(1, One, One, 0, N, N, One), In(1, 0, Half, 0, N, N, N) >>
Hs == 1..NH
Canon(f) == [h \in Hs |-> CHOOSE k \in Hs : f[k] = f[h] /\ \A m \in Hs : f[m] = f[h] => k <= m]
Own(h) == Canon([sto EXCEPT ![h] = NH + 1])
S(n) == " " \o ToString(n)
Do(h, new, st, txt) == /\ Len(new) <= MaxLen
                       /\ q' = [q EXCEPT ![h] = new] /\ sto' = st
                       /\ hist' = hist \o txt \o ";"
                       /\ PrintT("BEH " \o hist')
Init == q = [h \in Hs |-> <<>>] /\ sto = [h \in Hs |-> h] /\ hist = ""
Changed(h, new) == IF new = q[h] THEN sto ELSE Own(h)
Next == \E h \in Hs :
  \/ \E k \in Keys : LET r == AppendTo(q[h], <<Table[k]>>) IN Do(h, r, Changed(h, r), "append" \o S(h) \o S(k))
  \/ \E j, k \in Keys : LET r == AppendTo(q[h], <<Table[j], Table[k]>>) IN NH = 1 /\ Do(h, r, Changed(h, r), "span" \o S(h) \o S(j) \o S(k))
  \/ \E i \in 1..Len(q[h]), k \in Keys : LET r == SetAt(q[h], i, Table[k]) IN Do(h, r, Changed(h, r), "set" \o S(h) \o S(k) \o S(i - 1))
  \/ \E s \in 0..Len(q[h]), n \in 0..MaxLen : s + n <= Len(q[h]) /\ LET r == Erase(q[h], s, n) IN Do(h, r, Changed(h, r), "erase" \o S(h) \o S(s) \o S(n))
  \/ Do(h, <<>>, Own(h), "clear" \o S(h))
  \/ \E j \in Hs : /\ NH > 1
       /\ \/ Do(h, q[j], Canon([sto EXCEPT ![h] = sto[j]]), "copy" \o S(h) \o S(j))
          \/ Do(h, q[j], Own(h), "deep" \o S(h) \o S(j))
          \/ h # j /\ Len(q[j]) <= MaxLen /\ q' = [q EXCEPT ![h] = q[j], ![j] = <<>>] /\ sto' = Canon([sto EXCEPT ![h] = sto[j], ![j] = NH + 1]) /\ hist' = hist \o "move" \o S(h) \o S(j) \o ";" /\ PrintT("BEH " \o hist')
          \/ LET r == IF JoinOk(q[h], q[j]) THEN q[h] \o q[j] ELSE q[h] IN Do(h, r, IF q[h] = <<>> THEN Canon([sto EXCEPT ![h] = sto[j]]) ELSE Changed(h, r), "join" \o S(h) \o S(j))
  \/ NH > 1 /\ Do(h, Transform(q[h], [k \in 1..Len(q[h]) |-> <<IF X(q[h][k]) = 0 THEN One ELSE 0, 0>>]), Own(h), "xform" \o S(h))
Spec == Init /\ [][Next]_vars
View == <<q, sto>>
\* Everything but removing what lies between two equal inputs keeps the batch valid
Repeats(s) == \E a, b \in 1..Len(s) : a < b /\ X(s[a]) = X(s[b]) /\ Y(s[a]) = Y(s[b]) /\ T(s[a]) = T(s[b])
Valid == \A h \in Hs : ValidSeq(q[h]) \/ Repeats(q[h])
Independent == [][\A h \in Hs : q'[h] # q[h] => Cardinality({k \in Hs : q'[k] # q[k]}) \in 1..2]_vars
=============================================================================
