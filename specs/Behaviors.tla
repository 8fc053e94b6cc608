----------------------------- MODULE Behaviors -----------------------------
(* Brush behaviors: a behavior is a post-order list of nodes, run as a stack machine over nullable numbers.                *)
(* Numbers are fixed point with 12 fractional bits; Null is the null value, Wild a finite number too large to represent.   *)
EXTENDS Floats, Sequences
Null == 2147483647
Wild == 2147483646
Bad == 2147483645        \* infinite
Unit == 4096
NegOne == -1065353216
NodeIn(k) == CASE k \in {"S", "K"} -> 0 [] k \in {"F", "L", "D", "R", "T"} -> 1 [] k = "B" -> 2 [] k = "I" -> 3
NodeOut(k) == IF k = "T" THEN 0 ELSE 1
Kinds == {"S", "K", "F", "L", "D", "R", "B", "I", "T"}  \* source, constant, fallback filter, tool filter, damping, response, binary op, interpolation, target
\* ------------------------------------------------------------------ what a valid node list is
\* The stack depth after each prefix (-1 once a node lacked inputs)
RECURSIVE Depth(_, _)
Depth(ns, i) == IF i = 0 THEN 0 ELSE LET d == Depth(ns, i - 1) IN IF d < NodeIn(ns[i]) THEN -1 ELSE d - NodeIn(ns[i]) + NodeOut(ns[i])
Complete(ns) == Depth(ns, Len(ns)) = 0
\* Declaratively: trees, one after another or inside one another ("S S T T"), each a target applied to one value, a value being a node applied to its values.
RECURSIVE IsValue(_), IsValues(_, _), IsForest(_)
IsValues(ns, n) == IF n = 0 THEN ns = <<>> ELSE \E i \in 1 .. Len(ns) : IsValues(SubSeq(ns, 1, i - 1), n - 1) /\ IsValue(SubSeq(ns, i, Len(ns)))
IsValue(ns) == ns # <<>> /\ ns[Len(ns)] # "T" /\ IsValues(SubSeq(ns, 1, Len(ns) - 1), NodeIn(ns[Len(ns)]))
IsTree(ns) == ns # <<>> /\ ns[Len(ns)] = "T" /\ IsValue(SubSeq(ns, 1, Len(ns) - 1))
IsForest(ns) == ns = <<>> \/ \E i, j \in 1 .. Len(ns) : i <= j /\ IsTree(SubSeq(ns, i, j)) /\ IsForest(SubSeq(ns, 1, i - 1) \o SubSeq(ns, j + 1, Len(ns)))
\* ------------------------------------------------------------------ arithmetic
IsNull(x) == x = Null
Huge(x) == x = Wild
Close(x, y, k) == x - y <= k /\ y - x <= k
\* x is an acceptable result when the exact value is y, up to k units; when an operand was too large to represent, anything finite (or null) goes
Is(x, y, k, wild) == IF wild THEN x # Bad ELSE x \notin {Null, Bad} /\ (x = Wild => y > 120 * Unit \/ y < -120 * Unit) /\ (x # Wild => Close(x, y, k))
Mul(a, b) == (a * b) \div Unit            \* |a|, |b| < 8 units
Small(x) == x < 8 * Unit /\ x > -8 * Unit
LerpOf(a, b, t) == a + Mul(b - a, t)
Fits(a, b, t) == a \notin {Null, Wild} /\ b \notin {Null, Wild} /\ t \notin {Null, Wild} /\ Small(b - a) /\ Small(t) /\ Small(a) /\ Small(b)
InvFits(a, b, v) == a \notin {Null, Wild} /\ b \notin {Null, Wild} /\ v \notin {Null, Wild} /\ v - a < 100 * Unit /\ a - v < 100 * Unit /\ b # a
InvOf(a, b, v) == ((v - a) * Unit) \div (b - a)
InvTol(a, b, v) == 3 + (2 * Unit + (3 * Abs(v - a))) \div Abs(b - a)
\* ------------------------------------------------------------------ what each node does to the stack
\* in: the values it consumes; out: the values it leaves.  e holds the node's parameters and what it reads.
HasPressure(e) == e.pressure # NegOne
HasTilt(e) == e.tilt # NegOne
HasOrientation(e) == e.orientation # NegOne
\* When a source has a value
Defined(e) ==
  CASE e.source = "pressure" -> HasPressure(e)
    [] e.source = "tilt" -> HasTilt(e)
    [] e.source = "tiltxy" -> HasTilt(e) /\ HasOrientation(e) /\ ~e.flat     \* flat: tilted by a quarter turn, where it is indeterminate
    [] e.source = "orientation" -> HasOrientation(e) /\ e.tilt # 0            \* an upright stylus points nowhere
    [] e.source = "direction" -> e.travel
    [] e.source = "centimeters" -> e.units
    [] OTHER -> TRUE
Source(e) ==
  LET x == e.out[1] a == e.lo b == e.hi v == e.raw n == InvOf(a, b, v) k == InvTol(a, b, v) IN
  IF ~Defined(e) THEN x = Null
  ELSE IF ~InvFits(a, b, v) THEN x = Null \/ (x >= 0 /\ x <= Unit)
  ELSE /\ x >= 0 /\ x <= Unit
       /\ CASE e.oor = "clamp" -> Close(x, IF n < 0 THEN 0 ELSE IF n > Unit THEN Unit ELSE n, k)
            [] e.oor = "repeat" -> LET m == n % Unit IN Close(x, m, k) \/ Close(x, m + Unit, k) \/ Close(x, m - Unit, k)
            [] e.oor = "mirror" -> LET m == n % (2 * Unit) IN Close(x, IF m > Unit THEN 2 * Unit - m ELSE m, k)
Present(e) == CASE e.prop = "pressure" -> HasPressure(e) [] e.prop = "tilt" -> HasTilt(e) [] e.prop = "orientation" -> HasOrientation(e) [] e.prop = "tiltxy" -> HasTilt(e) /\ HasOrientation(e)
Filter(e) == e.out[1] = IF Present(e) THEN Null ELSE e.in[1]
ToolFilter(e) == e.out[1] = IF e.tool \in {e.tools[i] : i \in 1 .. Len(e.tools)} THEN e.in[1] ELSE Null
\* Damping follows its input: weight is how much of the previous value remains, exp(-moved/gap), as fixed point
Damping(e) ==
  LET x == e.in[1] p == e.prev y == e.out[1] IN
  /\ e.kept = y                                        \* what it emits is what it remembers
  /\ IF IsNull(x) THEN y = p
     ELSE IF IsNull(p) \/ e.gap0 \/ (e.by = "cm" /\ ~e.units) THEN y = x
     ELSE IF ~e.moved THEN y = p
     ELSE Is(y, LerpOf(x, p, e.weight), 6, ~Fits(x, p, e.weight))
Response(e) == IF IsNull(e.in[1]) THEN e.out[1] = Null ELSE e.out[1] = (IF e.curve = Bad THEN Null ELSE e.curve)     \* curve: the easing function at this value (C34)
Binary(e) == LET a == e.in[1] b == e.in[2] x == e.out[1] IN
  IF IsNull(a) \/ IsNull(b) THEN x = Null
  ELSE LET wild == Huge(a) \/ Huge(b) \/ ~Small(a) \/ ~Small(b) IN
       IF e.bin = "sum" THEN Is(x, IF Huge(a) \/ Huge(b) THEN 0 ELSE a + b, 3, Huge(a) \/ Huge(b)) ELSE Is(x, IF wild THEN 0 ELSE Mul(a, b), 20, wild)
Interpolate(e) == LET t == e.in[1] a == e.in[2] b == e.in[3] x == e.out[1] IN
  IF IsNull(t) \/ IsNull(a) \/ IsNull(b) THEN x = Null
  ELSE IF e.how = "lerp" THEN Is(x, IF Fits(a, b, t) THEN LerpOf(a, b, t) ELSE 0, 30, ~Fits(a, b, t))
  ELSE IF e.same THEN x = Null
  ELSE LET ok == InvFits(a, b, t) /\ Abs(b - a) > 16 IN Is(x, IF ok THEN InvOf(a, b, t) ELSE 0, IF ok THEN InvTol(a, b, t) + Abs(InvOf(a, b, t)) \div 50 ELSE 0, ~ok)
Target(e) == LET x == e.in[1] IN
  /\ e.out = <<>>
  /\ IF IsNull(x) THEN e.mod1 = e.mod0 ELSE Is(e.mod1, IF Fits(e.lo, e.hi, x) THEN LerpOf(e.lo, e.hi, x) ELSE 0, 30, ~Fits(e.lo, e.hi, x))
  /\ e.mod1 \notin {Null, Bad}                         \* a modifier is always a number
Node(e) ==
  /\ Len(e.in) = NodeIn(e.kind) /\ Len(e.out) = NodeOut(e.kind) /\ e.rest      \* rest: nothing below was touched
  /\ \A i \in 1 .. Len(e.out) : e.out[i] # Bad
  /\ CASE e.kind = "S" -> Source(e) [] e.kind = "K" -> e.out[1] = e.value [] e.kind = "F" -> Filter(e) [] e.kind = "L" -> ToolFilter(e) [] e.kind = "D" -> Damping(e)
       [] e.kind = "R" -> Response(e) [] e.kind = "B" -> Binary(e) [] e.kind = "I" -> Interpolate(e) [] e.kind = "T" -> Target(e)
  /\ (e.kind # "T" => e.mods) /\ (e.kind # "D" => e.damps)     \* nothing else was touched
\* ------------------------------------------------------------------ what the targets do to the tip
\* Here all quantities are multiples of 1/16 (unit 16); results are in 1/65536.
RECURSIVE SumOf(_, _, _), ProductOf(_, _, _, _)
SumOf(ms, ts, i) == IF i = 0 THEN 0 ELSE SumOf(ms, ts, i - 1) + (IF ms[i][1] \in ts THEN ms[i][2] ELSE 0)
\* products over at most three modifiers; in 1/4096
ProductOf(ms, ts, i, n) == IF i = 0 THEN 4096 ELSE IF ms[i][1] \in ts THEN (ProductOf(ms, ts, i - 1, n) * ms[i][2]) \div 16 ELSE ProductOf(ms, ts, i - 1, n)
Has(ms, ts) == \E i \in 1 .. Len(ms) : ms[i][1] \in ts
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
S(ms, t) == SumOf(ms, {t}, Len(ms))
P(ms, ts) == ProductOf(ms, ts, Len(ms), 0)
HalfPi == 102944   \* in 1/65536
TwoPi == 411775
OnCircle(x, y, k) == LET d == (x - y) % TwoPi IN d <= k \/ TwoPi - d <= k
Tip(e) == LET ms == e.mods r == e.tip b == e.base IN
  /\ Close(r.w, (b.w * Clamp(P(ms, {"width", "size"}), 0, 8192)), 16)         \* b.w in 1/16 and product in 1/4096
  /\ Close(r.h, (b.h * Clamp(P(ms, {"height", "size"}), 0, 8192)), 16)
  /\ Close(r.slant, Clamp((b.slant + S(ms, "slant")) * 4096, -HalfPi, HalfPi), 3)
  /\ Close(r.pinch, Clamp((b.pinch + S(ms, "pinch")) * 4096, 0, 65536), 2)
  /\ Close(r.round, Clamp((b.round + S(ms, "round")) * 4096, 0, 65536), 2)
  /\ OnCircle(r.rot, (b.rot + S(ms, "rotation")) * 4096, 6) /\ (S(ms, "rotation") # 0 => r.rot >= 0 /\ r.rot <= TwoPi)
  /\ OnCircle((r.hue * 6283) \div 1000 + (r.hue * 185) \div 1000000, S(ms, "hue") * 4096, 12) /\ r.hue >= 0 /\ r.hue <= 65536
  /\ Close(r.sat, Clamp(P(ms, {"saturation"}), 0, 8192) * 16, 2)
  /\ Close(r.lum, Clamp(S(ms, "luminosity") * 4096, -65536, 65536), 2)
  /\ Close(r.opac, Clamp((b.opac * P(ms, {"opacity"})) \div 16, 0, 8192) * 16, 16)      \* b.opac in 1/16
  \* position offsets: along the axes, and along / across the direction of travel (given as a unit vector in 1/4096)
  /\ LET f == IF e.travel THEN S(ms, "forward") ELSE 0   l == IF e.travel THEN S(ms, "lateral") ELSE 0
         dx == S(ms, "x") * 4096 + f * e.dir[1] - l * e.dir[2]     dy == S(ms, "y") * 4096 + f * e.dir[2] + l * e.dir[1]   \* in 1/65536 of the brush size
         k == 40 + (Abs(f) + Abs(l)) * b.size IN
     Close(r.x, b.x * 4096 + dx * b.size, k) /\ Close(r.y, b.y * 4096 + dy * b.size, k)
\* ------------------------------------------------------------------ interpolating modeled inputs (particles): what is absent stays absent
Mix(e) ==
  /\ e.a[1] = NegOne => e.r[1] = NegOne
  /\ e.a[2] = NegOne => e.r[2] = NegOne
  /\ e.a[3] = NegOne => e.r[3] = NegOne
  /\ e.a[1] # NegOne => NonNeg(e.r[1]) /\ e.r[1] <= One
  /\ e.a[2] # NegOne => NonNeg(e.r[2]) /\ e.r[2] <= 1070141404
  /\ e.a[3] # NegOne => NonNeg(e.r[3]) /\ e.r[3] <= 1086918620
  /\ \A i \in 1 .. Len(e.x) : Close(e.x[i][4], LerpOf(e.x[i][1], e.x[i][2], e.x[i][3]), 8)
\* ------------------------------------------------------------------ modeling the tip along a stroke
\* fixed: the tip states that have become fixed so far.  After an update, fixed states have only been added, and together with the volatile
\* ones they are what the tip would be had the whole stroke been modeled at once (e.whole); every update reports them all.
TipClose(a, b) == \A i \in 1 .. Len(a) : Close(a[i], b[i], 8)
TipsClose(p, q) == Len(p) = Len(q) /\ \A i \in 1 .. Len(p) : TipClose(p[i], q[i])
Update(fixed, e) ==
  LET all == fixed \o e.new \o e.volatile IN
  /\ e.whole.same \/ TipsClose(all, e.whole.tips)
  /\ e.direct => Len(all) = e.inputs                                     \* continuous tips: one state per modeled input
  /\ e.direct => e.meant.same \/ TipsClose(all, e.meant.tips)            \* what the behaviors, evaluated one node at a time, give
  /\ Close(e.since, e.bound, 2) \/ e.unfinished = (e.since < e.bound)     \* whether time alone can still change something
  /\ Len(fixed) + Len(e.new) <= IF e.direct THEN e.stable ELSE Len(all)   \* only states made from stable inputs are fixed
\* Particles: states alternate with gaps, one at the start and then one whenever both the distance and the time gap have been covered.
Particles(e) ==
  /\ Len(e.tips) = 2 * Len(e.expect)
  /\ \A i \in 1 .. Len(e.expect) : /\ e.tips[2 * i][1] = 0 /\ e.tips[2 * i][2] = 0                        \* a gap has no size
                                   /\ Close(e.tips[2 * i - 1][3], e.expect[i], 8)                        \* where along the (straight) path
                                   /\ e.tips[2 * i - 1][1] > 0
=============================================================================
