---------------------------- MODULE MC_Natives ----------------------------
(* Batches and strokes through their native methods: three Java variables, every sequence of calls. A batch is the         *)
(* sequence of its input times (an input must be later than the one before it); a stroke keeps the inputs it was made from.*)
EXTENDS Natives, TLC
CONSTANTS Depth, Times
VARIABLES P, var, n, next, hist, changed, freed
vars == <<P, var, n, next, hist, changed, freed>>
Slots == 1..3
Init == P = NoPeers /\ var = [s \in Slots |-> 0] /\ n = 0 /\ next = 1 /\ hist = "" /\ changed = {} /\ freed = {}
Is(s, k) == var[s] # 0 /\ P[var[s]].k = k
Val(s) == P[var[s]].v
Fits(v, w) == v = <<>> \/ w = <<>> \/ w[1] > v[Len(v)]
One(h, x) == [y \in {h} |-> x]
Act(f, ok, self, del, mut, new, text) ==
  /\ n < Depth /\ May(P, f, ok, self, del, mut, new) = TRUE
  /\ P' = Step(P, del, mut, new) /\ n' = n + 1 /\ changed' = del \cup DOMAIN mut /\ freed' = freed \cup del
  /\ hist' = hist \o text \o ";"
\* a variable that gets a new object must be free (its previous object was freed)
Make(f, s, k, v, text) == /\ var[s] = 0 /\ Act(f, TRUE, 0, {}, NoPeers, One(next, [k |-> k, v |-> v]), text)
                          /\ var' = [var EXCEPT ![s] = next] /\ next' = next + 1
Change(f, s, ok, v, text) == Act(f, ok, var[s], {}, IF ok THEN One(var[s], v) ELSE NoPeers, NoPeers, text) /\ UNCHANGED <<var, next>>
T1(a, s) == a \o " " \o ToString(s)
T2(a, s, t) == a \o " " \o ToString(s) \o " " \o ToString(t)
New(s) == (\A r \in 1..(s - 1) : var[r] # 0) /\ Make("batch.new", s, "batch", <<>>, T1("new", s))
Add(s, x) == Is(s, "batch") /\ LET ok == Fits(Val(s), <<x>>) IN Change("batch.append", s, ok, Append(Val(s), x), T2("add", s, x))
Join(s, r) == Is(s, "batch") /\ Is(r, "batch") /\ LET ok == Fits(Val(s), Val(r)) IN Change("batch.join", s, ok, Val(s) \o Val(r), T2("join", s, r))
ClearIt(s) == Is(s, "batch") /\ Change("batch.clear", s, TRUE, <<>>, T1("clear", s))
Copy(s, r) == Is(r, "batch") /\ Make("batch.copy", s, "batch", Val(r), T2("copy", s, r))
Stroke(s, r) == Is(r, "batch") /\ Make("stroke.new", s, "stroke", Val(r), T2("stroke", s, r))
Inputs(s, r) == Is(r, "stroke") /\ Make("stroke.inputs", s, "batch", Val(r), T2("inputs", s, r))
Free(s) == /\ var[s] # 0 /\ Act(IF Is(s, "batch") THEN "batch.free" ELSE "stroke.free", TRUE, var[s], {var[s]}, NoPeers, NoPeers, T1("free", s))
           /\ var' = [var EXCEPT ![s] = 0] /\ UNCHANGED next
Next == \E s, r \in Slots : New(s) \/ (\E x \in Times : Add(s, x)) \/ Join(s, r) \/ ClearIt(s) \/ Copy(s, r) \/ Stroke(s, r) \/ Inputs(s, r) \/ Free(s)
Spec == Init /\ [][Next]_vars
\* every live peer is owned by exactly one variable, and never was freed
Owned == {var[s] : s \in Slots} \ {0} = Live(P) /\ \A s, r \in Slots : s # r /\ var[s] # 0 => var[s] # var[r]
NotFreed == Live(P) \cap freed = {}
\* batches and strokes stay ordered; strokes never change
Ordered == \A h \in Live(P) : \A i \in 1..(Len(P[h].v) - 1) : P[h].v[i] < P[h].v[i + 1]
Independent == [][\A h \in Live(P) \cap Live(P') : h \notin changed' => P'[h] = P[h]]_vars
StrokesFixed == [][\A h \in Live(P) \cap Live(P') : P[h].k = "stroke" => P'[h] = P[h]]_vars
Done == n = Depth
Emit == Done => PrintT("BEH " \o hist)
=============================================================================
