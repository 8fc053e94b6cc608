-------------------------- MODULE Trace_BrushParts --------------------------
EXTENDS BrushParts, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bs
Fresh == [family |-> 0, color |-> 0, size |-> One, eps |-> 1036831949]
SetOf(s) == {s[i] : i \in 1 .. Len(s)}
Is1(e, b) == e.size = b.size /\ e.eps = b.eps /\ e.family = b.family /\ e.color = b.color
\* a brush history: what the operation does to the brush it names; both brushes are observed afterwards
Step(e, b2) == bs' = b2 /\ Is1(e.after[1], b2[1]) /\ Is1(e.after[2], b2[2])
OK(e) ==
  CASE e.op = "reset" -> bs' = <<Fresh, Fresh>>
    [] e.op \in {"easing", "node", "behavior", "tip", "layer", "paint", "coat", "family", "same", "default"} ->
         /\ bs' = bs
         /\ (CASE e.op = "easing" -> e.ok = EasingValid(e.v)
               [] e.op = "node" -> e.ok = NodeValid(e.v)
               [] e.op = "behavior" -> e.ok = BehaviorValid(e.v) /\ e.again = e.ok
               [] e.op = "tip" -> e.ok = TipValid(e.v)
               [] e.op = "layer" -> e.ok = LayerValid(e.v)
               [] e.op = "paint" -> e.ok = PaintValid(e.v)
               [] e.op = "coat" -> e.ok = CoatValid(e.v) /\ SetOf(e.need) = Required(e.v) /\ Len(e.need) = Cardinality(Required(e.v)) /\ e.need[1] = "kPosition"
               [] e.op = "family" -> e.ok = FamilyValid(e.v, e.uri) /\ (e.ok => e.kept) /\ (~e.ok => e.code = 3)
               [] e.op = "same" -> e.eq = (e.a = e.b) /\ e.ne = ~e.eq
               [] e.op = "default" -> e.ok)
    [] e.op = "create" -> LET v == BrushValid(e.x, e.y) IN e.ok = v /\ (~v => e.code = 3) /\
         Step(e, IF v THEN [bs EXCEPT ![e.i] = [family |-> e.tag, color |-> e.tag, size |-> e.x, eps |-> e.y]] ELSE bs)
    [] e.op = "size" -> e.ok = SetSizeOK(bs[e.i], e.x) /\ Step(e, IF e.ok THEN [bs EXCEPT ![e.i].size = e.x] ELSE bs)
    [] e.op = "eps" -> e.ok = SetEpsOK(bs[e.i], e.x) /\ Step(e, IF e.ok THEN [bs EXCEPT ![e.i].eps = e.x] ELSE bs)
    [] e.op = "color" -> Step(e, [bs EXCEPT ![e.i].color = e.tag])
    [] e.op = "family2" -> Step(e, [bs EXCEPT ![e.i].family = e.tag])
    [] e.op = "copy" -> Step(e, [bs EXCEPT ![3 - e.i] = bs[e.i]])
    [] OTHER -> FALSE
Init == l = 1 /\ bs = <<Fresh, Fresh>>
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
