----------------------------- MODULE InProgress -----------------------------
(* The life of an in-progress stroke. State: has it been started, are its inputs finished, real and predicted inputs already *)
(* processed, real and predicted inputs queued, the time of the last update, the number of coats, and whether the visible     *)
(* shape may have changed since the updated region was last reset.                                                            *)
EXTENDS InputBatches
Ok == 0   Invalid == 3   Precondition == 9
Blank == [started |-> FALSE, fin |-> TRUE, real |-> <<>>, pred |-> <<>>, qreal |-> <<>>, qpred |-> <<>>, t |-> 0, coats |-> 0, virgin |-> TRUE]
Begin(s, bc) == [Blank EXCEPT !.started = TRUE, !.fin = FALSE, !.coats = bc]
Last(q) == q[Len(q)]
OldReal(s) == IF s.qreal # <<>> THEN s.qreal ELSE s.real
EnqCode(s, r, p) ==
  IF ~s.started \/ s.fin THEN Precondition
  ELSE IF r = <<>> /\ p = <<>> THEN Ok
  ELSE IF Joins(OldReal(s), r \o p) /\ Joins(r, p) THEN Ok ELSE Invalid
Enq(s, r, p) == IF EnqCode(s, r, p) = Ok THEN [s EXCEPT !.qreal = @ \o r, !.qpred = p] ELSE s
UpdateCode(s, t) == IF ~s.started THEN Precondition ELSE IF t < 0 \/ t < s.t THEN Invalid ELSE Ok
Queued(s) == s.qreal # <<>> \/ s.qpred # <<>>
Update(s, t) == IF UpdateCode(s, t) # Ok THEN s
                ELSE [s EXCEPT !.real = @ \o s.qreal, !.pred = IF s.fin \/ Queued(s) THEN s.qpred ELSE @,
                               !.qreal = <<>>, !.qpred = <<>>, !.t = t, !.virgin = FALSE]
\* FinishInputs also gives up queued predictions
Finish(s) == [s EXCEPT !.fin = TRUE, !.qpred = <<>>]
Clear(s) == Blank
\* Accessors
ReportsStroke(s, e) ==
  /\ e.started = s.started /\ e.fin = s.fin /\ e.ins = s.real \o s.pred /\ e.n = Len(s.real) + Len(s.pred)
  /\ e.nreal = Len(s.real) /\ e.npred = Len(s.pred) /\ e.coats = s.coats
  /\ (Queued(s) => e.needs) /\ (~s.started => (~e.needs /\ e.size = 0)) /\ (s.virgin => (e.size = 0 /\ e.noregion))
=============================================================================
