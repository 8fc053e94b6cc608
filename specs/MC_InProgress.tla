---------------------------- MODULE MC_InProgress ----------------------------
(* Reachable states of one in-progress stroke over a table of inputs, at most MaxReal real inputs; every transition emitted.  *)
EXTENDS InProgress, TLC
CONSTANTS MaxReal, Brushes, Lists, Preds, Times
VARIABLES s, ncopy, hist
vars == <<s, ncopy, hist>>
In(tool, x, y, t) == <<tool, x, y, t, 0, MinusOne, MinusOne, MinusOne>>
Table == << In(1, 0, 0, 0), In(1, 1101004800, 0, One), In(1, 1101004800, 1101004800, One), In(1, 0, 1101004800, 1073741824), In(2, 0, 0, 1073741824) >>
L(n) == IF n = 0 THEN <<>> ELSE IF n < 10 THEN <<Table[n]>> ELSE <<Table[n \div 10], Table[n % 10]>>
Sec(n) == CASE n = 9 -> MinusOne [] n = 0 -> 0 [] n = 1 -> One [] n = 2 -> 1073741824 [] OTHER -> 1077936128
S(n) == " " \o ToString(n)
Do(new, txt) == s' = new /\ hist' = hist \o txt \o ";" /\ PrintT("BEH " \o hist')
Init == s = Blank /\ ncopy = 0 /\ hist = ""
Next == /\ UNCHANGED ncopy
        /\ \/ \E b \in Brushes : Do(Begin(s, 1), "start" \o S(b))
           \/ Do(Clear(s), "clear")
           \/ Do(Finish(s), "finish")
           \/ Do(s, "region")
           \/ s.started /\ Do(s, "copy")
           \/ \E r \in Lists, p \in Preds : Len(s.real) + Len(s.qreal) + Len(L(r)) <= MaxReal /\ Do(Enq(s, L(r), L(p)), "enq" \o S(r) \o S(p))
           \/ \E t \in Times : Do(Update(s, Sec(t)), "update" \o S(IF t = 9 THEN 0 - 1 ELSE t))
Spec == Init /\ [][Next]_vars
View == s
\* What the lifecycle promises
RealValid == ValidSeq(s.real \o s.qreal)
PredValid == ValidSeq(s.real \o s.pred) /\ ValidSeq(s.real \o s.qreal \o s.qpred)
NothingUnstarted == ~s.started => s = Blank
NoPredictionsLeft == (s.fin /\ s.started) => s.qpred = <<>>
\* real inputs only ever grow, except by start and clear
Grows == [][(s.started /\ s'.started /\ s'.real # <<>>) => (Len(s'.real) >= Len(s.real) /\ SubSeq(s'.real, 1, Len(s.real)) = s.real)]_vars
Refusals == [][(s'.t < s.t) => s' \in {Blank, Begin(s, 1)}]_vars
==============================================================================
