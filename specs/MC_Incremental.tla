--------------------------- MODULE MC_Incremental ---------------------------
(* All update histories over the fixed input sequence 1, 2, ..; predictions 0, 1 or 2 inputs of kind 1 (ahead), 2 (elsewhere) or *)
(* the very inputs that come next (kind 3). Each transition is emitted after a shortest path to a state that remembers the last *)
(* update, for replay on real brushes.                                                                                          *)
EXTENDS Incremental, TLC
CONSTANTS MaxReal, MaxWait, Regions
VARIABLES last, waits, snap, hist
vars == <<real, pred, saved, built, region, finished, last, waits, snap, hist>>
PredOf(n, p, k) == [i \in 1..p |-> IF k = 3 THEN n + i ELSE 100 * k + 10 * n + i]
S(n) == " " \o ToString(n)
Init == real = <<>> /\ pred = <<>> /\ saved = 0 /\ built = <<>> /\ region = {} /\ finished = FALSE /\ last = <<0, 0, 0, 0>> /\ waits = 0 /\ snap = <<>> /\ hist = ""
Emit(txt) == hist' = hist \o txt \o ";" /\ PrintT("BEH " \o hist')
Next ==
  \/ \E r \in 0..2, p \in 0..2, k \in 1..3, w \in 0..1 :
       /\ Len(real) + r <= MaxReal /\ waits + w <= MaxWait /\ (p = 0 => k = 1) /\ ~finished
       /\ Update([i \in 1..r |-> Len(real) + i], PredOf(Len(real) + r, p, k))
       /\ last' = <<r, p, k, w>> /\ waits' = waits + w /\ snap' = snap /\ Emit("u" \o S(r) \o S(p) \o S(k) \o S(w))
  \/ ~finished /\ Len(real) > 0 /\ finished' = TRUE /\ real' = real /\ pred' = <<>> /\ saved' = Len(real) /\ built' = Prefix(built, saved) \o Rest(Build(real), saved)
       /\ region' = region \cup (SetOf(Rest(built, saved)) \cup SetOf(Rest(Build(real), saved))) /\ last' = <<0, 0, 0, 0>> /\ UNCHANGED <<waits, snap>> /\ Emit("f")
  \/ Regions /\ region # {} /\ ResetRegion /\ snap' = built /\ UNCHANGED <<last, waits>> /\ Emit("g")
Spec == Init /\ [][Next]_vars
View == <<real, pred, region = {}, finished, last, waits>>
Covered == (SetOf(built) \ SetOf(snap)) \cup (SetOf(snap) \ SetOf(built)) \subseteq region
=============================================================================
