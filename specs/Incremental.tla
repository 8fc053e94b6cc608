----------------------------- MODULE Incremental -----------------------------
(* The way an in-progress stroke is built piecewise, as a machine. Modelled inputs turn into pieces of geometry; a piece depends *)
(* on its own input and the one before it (the join) and the last piece also on being last (the cap). Pieces before the last    *)
(* real input are stable; everything after the saved prefix is thrown away and rebuilt by the next update. The updated region   *)
(* must collect what was thrown away or built, except pieces that come back unchanged.                                          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES real, pred, saved, built, region, finished
ivars == <<real, pred, saved, built, region, finished>>
Piece(q, k) == <<IF k = 1 THEN 0 ELSE q[k - 1], q[k], k = Len(q)>>                  \* (previous, own, capped)
Build(q) == [k \in 1..Len(q) |-> Piece(q, k)]
SetOf(s) == {s[k] : k \in 1..Len(s)}
Prefix(s, n) == SubSeq(s, 1, n)
Rest(s, n) == SubSeq(s, n + 1, Len(s))
Update(r, p) ==
  LET real2 == real \o r   all == real2 \o p
      stable == IF Len(real2) = 0 THEN 0 ELSE Len(real2) - 1
      new == Prefix(built, saved) \o Rest(Build(all), saved)
  IN /\ real' = real2 /\ pred' = p /\ saved' = stable /\ built' = new
     /\ region' = region \cup ((SetOf(Rest(built, saved)) \cup SetOf(Rest(new, saved))) \ (SetOf(Rest(built, saved)) \cap SetOf(Rest(new, saved))))
     /\ UNCHANGED finished
ResetRegion == region' = {} /\ UNCHANGED <<real, pred, saved, built, finished>>
\* Nothing of the history is left in what has been built
AsIfAtOnce == built = Build(real \o pred)
==============================================================================
