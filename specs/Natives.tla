------------------------------ MODULE Natives ------------------------------
(* The native methods behind the Java classes. A Java object of such a class is a handle on a native peer that it owns;    *)
(* a method may create peers, change the one it is called on, free it, or only look. State:                                *)
(*   peers: live handle -> [k |-> kind, v |-> value]                                                                       *)
(* A value is that of the C++ object the peer is; what a method returns and leaves behind is what the C++ operation of     *)
(* that name returns and leaves behind, for the values the handles stand for. Peers share nothing that can be noticed.     *)
EXTENDS Integers, Sequences, FiniteSets
NoPeers == [h \in {} |-> 0]
Live(P) == DOMAIN P
Kinds == {"batch", "stroke", "wip", "shape", "mesh", "format", "behavior", "tip", "layer", "paint", "coat", "family", "brush"}
\* ---- the methods: what each one may do
\* kind of the peers that a method creates ("" if none)
Creates(f) ==
  CASE f \in {"batch.new", "batch.copy", "stroke.inputs"} -> "batch"
    [] f \in {"stroke.new", "stroke.withShape", "wip.copyToStroke"} -> "stroke"
    [] f = "wip.new" -> "wip"
    [] f \in {"shape.new", "stroke.shape"} -> "shape"
    [] f \in {"mesh.new", "shape.meshes"} -> "mesh"
    [] f \in {"mesh.format", "shape.format", "wip.format"} -> "format"
    [] f = "behavior.new" -> "behavior"
    [] f = "tip.new" -> "tip"
    [] f = "layer.new" -> "layer"
    [] f = "paint.new" -> "paint"
    [] f = "coat.new" -> "coat"
    [] f = "family.new" -> "family"
    [] f = "brush.new" -> "brush"
    [] OTHER -> ""
Several == {"shape.meshes"}                                  \* as many as the argument has; all others: one
Frees == {k \o ".free" : k \in Kinds}
Changes == {"batch.append", "batch.join", "batch.clear", "wip.clear", "wip.start", "wip.enqueue", "wip.update", "wip.finish", "wip.resetRegion", "wip.fillInputs",
            "shape.index", "behavior.add", "tip.add", "paint.add"}
Validates == {"behavior.validate"}                           \* frees the peer if its value is not valid
Looks == {"batch.read", "wip.read", "wip.indices", "wip.buffers", "stroke.read", "shape.read", "mesh.read", "format.same", "value"}
Methods == Frees \cup Changes \cup Validates \cup Looks \cup
           {"batch.new", "batch.copy", "stroke.inputs", "stroke.new", "stroke.withShape", "wip.copyToStroke", "wip.new", "shape.new", "stroke.shape", "mesh.new", "shape.meshes", "mesh.format",
            "shape.format", "wip.format", "behavior.new", "tip.new", "layer.new", "paint.new", "coat.new", "family.new", "brush.new"}
\* how a failure is told: by an exception, by the text of the status, or not at all
Throws == {"behavior.validate", "tip.new", "layer.new", "paint.add", "family.new", "brush.new"}
Tells == {"batch.append", "batch.join", "wip.enqueue", "wip.update"}
CanFail(f) == f \in Throws \cup Tells
\* a failed append leaves the batch as it was; a paint that got a bad layer is not used any more, so its value is left open
KeepsOnFailure == Tells
ASSUME Throws \cap Tells = {} /\ Throws \cup Tells \subseteq Methods
ASSUME \A f \in Methods : Cardinality({s \in {"c", "f", "m", "v", "l"} : CASE s = "c" -> Creates(f) # "" [] s = "f" -> f \in Frees [] s = "m" -> f \in Changes [] s = "v" -> f \in Validates [] OTHER -> f \in Looks}) = 1
\* ---- transitions
\* What a method does to the peers: del freed, mut = handle -> new value, new = handle -> peer
Step(P, del, mut, new) ==
  LET keep == Live(P) \ del
  IN [h \in keep \cup DOMAIN new |-> IF h \in DOMAIN new THEN new[h] ELSE IF h \in DOMAIN mut THEN [P[h] EXCEPT !.v = mut[h]] ELSE P[h]]
\* ... and whether the method f may do that, having ended well (ok) or not
May(P, f, ok, self, del, mut, new) ==
  /\ f \in Methods
  /\ ok \/ CanFail(f)
  /\ del \subseteq Live(P) /\ DOMAIN mut \subseteq Live(P) \ del
  /\ DOMAIN new \cap Live(P) = {}                            \* a new peer is nobody else's
  /\ \A h \in DOMAIN new : h > 0 /\ new[h].k = Creates(f)
  /\ Cardinality(DOMAIN new) = 1 \/ f \in Several \/ (Creates(f) = "" /\ DOMAIN new = {}) \/ (~ok /\ DOMAIN new = {})
  /\ ~ok => DOMAIN new = {}
  /\ del = (IF f \in Frees \/ (f \in Validates /\ ~ok) THEN {self} ELSE {})
  /\ DOMAIN mut \subseteq (IF f \in Changes THEN {self} ELSE {})
=============================================================================
