------------------------------- MODULE Meshes -------------------------------
(* Meshes: mutable ones as plain arrays of vertices and triangles, immutable ones as what packing makes of them, and partitioned ones as ordered groups with    *)
(* outlines. Attribute values are integers in eighths; a few numbers stand for what is not finite or is huge.                                                    *)
EXTENDS MeshFormats
MaxVertices == 65536
MaxMeshes == 65536
\* ------------------------------------------------------------------ values
NotANumber == 2147483647
PosInf == 2147483646
NegInf == -2147483646
FltMax == 2147483645
Pow127 == 2147483644
Pow126 == 2147483643
FiniteV(v) == v # NotANumber /\ v # PosInf /\ v # NegInf
AbsV(v) == IF v < 0 THEN -v ELSE v
\* in units of 2^120
Units(v) == LET a == AbsV(v) u == CASE a = FltMax -> 255 [] a = Pow127 -> 128 [] a = Pow126 -> 64 [] OTHER -> 0 IN IF v < 0 THEN -u ELSE u
Overflows(lo, hi) == Units(hi) - Units(lo) >= 256
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
MaxFor(bits) == Pow2(bits) - 1
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Range(s) == {s[i] : i \in 1 .. Len(s)}
\* ------------------------------------------------------------------ mutable meshes: [as, idx, v, t]; a vertex is a sequence of attributes' component sequences, indices count from 0
Comps(as, i) == Types[as[i].t].n
ZeroVertex(as) == [i \in 1 .. Len(as) |-> [c \in 1 .. Comps(as, i) |-> 0]]
Fresh(as, idx) == [as |-> as, idx |-> idx, v |-> <<>>, t |-> <<>>]
PosOf(m, i) == m.v[i + 1][PositionIndex(m.as)]
WithPos(m, i, p) == [m EXCEPT !.v[i + 1][PositionIndex(m.as)] = p]
AddVertex(m, p) == [m EXCEPT !.v = Append(@, [ZeroVertex(m.as) EXCEPT ![PositionIndex(m.as)] = p])]
SetAttr(m, i, a, val) == [m EXCEPT !.v[i + 1][a + 1] = val]
AddTri(m, x) == [m EXCEPT !.t = Append(@, x)]
SetTri(m, i, x) == [m EXCEPT !.t[i + 1] = x]
InsTri(m, i, x) == [m EXCEPT !.t = SubSeq(@, 1, i) \o <<x>> \o SubSeq(@, i + 1, Len(@))]
Fit(s, n, zero) == [i \in 1 .. n |-> IF i <= Len(s) THEN s[i] ELSE zero]
Resized(m, nv, nt) == [m EXCEPT !.v = Fit(@, nv, ZeroVertex(m.as)), !.t = Fit(@, nt, <<0, 0, 0>>)]
Cleared(m) == Fresh(m.as, m.idx)
InRange(m, x) == x[1] < Len(m.v) /\ x[2] < Len(m.v) /\ x[3] < Len(m.v)
ThreeDistinct(x) == x[1] # x[2] /\ x[1] # x[3] /\ x[2] # x[3]
ValidTris(m) == \A i \in 1 .. Len(m.t) : InRange(m, m.t[i]) /\ ThreeDistinct(m.t[i])
\* ------------------------------------------------------------------ packing: integers are laid most significant bit first, one after the other, into bytes or into floats' 24 bits
Bits(type) == Types[type].bits
BitAt(x, n, j) == (x \div Pow2(n - j)) % 2                      \* bit j of n, 1 the most significant
RECURSIVE Spread(_, _, _)
Spread(xs, bits, i) == IF i > Len(xs) THEN <<>> ELSE [j \in 1 .. bits[i] |-> BitAt(xs[i], bits[i], j)] \o Spread(xs, bits, i + 1)
RECURSIVE Value(_, _, _)
Value(b, i, n) == IF n = 0 THEN 0 ELSE 2 * Value(b, i, n - 1) + (IF i + n - 1 <= Len(b) THEN b[i + n - 1] ELSE 0)   \* bits i .. i+n-1, those past the end being 0
Word(type) == IF Types[type].into = "bytes" THEN 8 ELSE 24
Words(type) == Up(Sum(Bits(type)), Word(type))
Pack(type, xs) == LET b == Spread(xs, Bits(type), 1) IN [w \in 1 .. Words(type) |-> Value(b, 1 + (w - 1) * Word(type), Word(type))]
Unpack(type, ws) == LET b == Spread(ws, [w \in 1 .. Len(ws) |-> Word(type)], 1) IN
  [c \in 1 .. Types[type].n |-> Value(b, 1 + Sum(SubSeq(Bits(type), 1, c - 1)), Bits(type)[c])]
\* rounding a / b (b > 0), halves away from zero
Round(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
\* coding parameters: a sequence of [o, s] in eighths; whether a component's value can be told exactly: "yes", "no", or "either" within half a step of the end
Representable(c, bits, v) ==
  IF AbsV(c.o) > 1000000000 \/ c.s > 1000000000 \/ AbsV(v) > 1000000000 THEN "either"
  ELSE LET a == v - c.o IN
    CASE a >= 0 /\ a <= MaxFor(bits) * c.s -> "yes"
      [] 2 * a <= -c.s \/ 2 * (a - MaxFor(bits) * c.s) >= c.s -> "no"
      [] OTHER -> "either"
WellFormed(type, p) == Len(p) = Types[type].n /\ \A c \in 1 .. Len(p) : FiniteV(p[c].o) /\ FiniteV(p[c].s) /\ p[c].s > 0
\* What is asked for each attribute: [has, c]. Params and bounds give "yes" (accepted), "no" (refused) or "either".
And3(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "either" \/ b = "either" THEN "either" ELSE "yes"
RECURSIVE All3(_, _)
All3(S, f) == IF S = {} THEN "yes" ELSE LET x == CHOOSE x \in S : TRUE IN And3(f[x], All3(S \ {x}, f))
B3(b) == IF b THEN "yes" ELSE "no"
OneParam(type, p, lo, hi) ==
  IF ~p.has THEN B3(\A c \in 1 .. Len(lo) : Unpacked(type) \/ ~Overflows(lo[c], hi[c]))
  ELSE IF Unpacked(type) \/ ~WellFormed(type, p.c) THEN "no"
  ELSE LET n == Types[type].n
           f == [k \in 1 .. 2 * n |-> IF k <= n THEN Representable(p.c[k], Bits(type)[k], lo[k]) ELSE Representable(p.c[k - n], Bits(type)[k - n], hi[k - n])]
       IN All3(1 .. 2 * n, f)
NoParam == [has |-> FALSE, c |-> <<>>]
Lo(vs, a, c) == MinOf({vs[i][a][c] : i \in 1 .. Len(vs)})
Hi(vs, a, c) == MaxOf({vs[i][a][c] : i \in 1 .. Len(vs)})
LoHi(as, vs, a) == [lo |-> [c \in 1 .. Comps(as, a) |-> Lo(vs, a, c)], hi |-> [c \in 1 .. Comps(as, a) |-> Hi(vs, a, c)]]
\* vs: the vertices that matter, not empty
ParamsOK(as, vs, ps) ==
  IF Len(ps) # 0 /\ Len(ps) # Len(as) THEN "no"
  ELSE LET f == [a \in 1 .. Len(as) |-> LET b == LoHi(as, vs, a) IN OneParam(as[a].t, IF Len(ps) = 0 THEN NoParam ELSE ps[a], b.lo, b.hi)] IN All3(1 .. Len(as), f)
FiniteVertex(x) == \A a \in 1 .. Len(x) : \A c \in 1 .. Len(x[a]) : FiniteV(x[a][c])
\* ------------------------------------------------------------------ making immutable meshes
\* from arrays; the attributes' spans must all be there and of one length, cs being the lengths
CreateOK(as, cs, vs, indices, ps) ==
  LET shape == Len(cs) = Sum([a \in 1 .. Len(as) |-> Comps(as, a)]) /\ (\A i \in 1 .. Len(cs) : cs[i] = cs[1]) /\ Len(cs) > 0 /\ cs[1] <= MaxVertices IN
  IF ~shape THEN "no"
  ELSE IF ~(\A i \in 1 .. Len(vs) : FiniteVertex(vs[i])) \/ Len(indices) % 3 # 0 \/ (\E i \in 1 .. Len(indices) : indices[i] >= Len(vs)) THEN "no"
  ELSE IF Len(vs) = 0 THEN "yes" ELSE ParamsOK(as, vs, ps)
Kept(as, om) == SelectSeq(as, LAMBDA a : a.id \notin om)
RECURSIVE Keep(_, _, _, _)
Keep(as, om, x, i) == IF i > Len(as) THEN <<>> ELSE (IF as[i].id \in om THEN <<>> ELSE <<x[i]>>) \o Keep(as, om, x, i + 1)
Used(m) == UNION {Range(m.t[i]) : i \in 1 .. Len(m.t)}
RECURSIVE Select(_, _, _)
Select(m, om, i) == IF i > Len(m.v) THEN <<>> ELSE (IF i - 1 \in Used(m) THEN <<Keep(m.as, om, m.v[i], 1)>> ELSE <<>>) \o Select(m, om, i + 1)
AsMeshesOK(m, om, ps) ==
  IF Len(m.t) = 0 THEN "yes"
  ELSE IF ~ValidTris(m) \/ ~CanRemove(m.as, om) THEN "no"
  ELSE IF \E i \in 1 .. Len(m.v) : ~FiniteVertex(Keep(m.as, om, m.v[i], 1)) THEN "no"
  ELSE ParamsOK(Kept(m.as, om), Select(m, om, 1), ps)
Decides(tri, ok) == (tri = "yes" => ok) /\ (tri = "no" => ~ok)
\* ------------------------------------------------------------------ partitions: sequences of [v |-> vertices, t |-> triangles in terms of them]
PartitionOf(ts, max, parts) ==
  LET all == [p \in 1 .. Len(parts) |-> [i \in 1 .. Len(parts[p].t) |-> [k \in 1 .. 3 |-> parts[p].v[parts[p].t[i][k] + 1]]]]
      flat[p \in 0 .. Len(parts)] == IF p = 0 THEN <<>> ELSE flat[p - 1] \o all[p] IN
  /\ \A p \in 1 .. Len(parts) :
       /\ Cardinality(Range(parts[p].v)) = Len(parts[p].v) /\ Len(parts[p].v) <= max
       /\ \A i \in 1 .. Len(parts[p].t) : \A k \in 1 .. 3 : parts[p].t[i][k] < Len(parts[p].v)
       /\ {parts[p].t[i][k] : i \in 1 .. Len(parts[p].t), k \in 1 .. 3} = 0 .. Len(parts[p].v) - 1
       /\ parts[p].t # <<>> \/ ts = <<>>
  /\ flat[Len(parts)] = ts
  /\ Cardinality(UNION {Range(ts[i]) : i \in 1 .. Len(ts)}) <= max => Len(parts) <= 1
\* the greedy way
FirstUse(vs, x) == LET a == IF x[1] \in Range(vs) THEN vs ELSE Append(vs, x[1]) b == IF x[2] \in Range(a) THEN a ELSE Append(a, x[2]) IN IF x[3] \in Range(b) THEN b ELSE Append(b, x[3])
Place(vs, y) == (CHOOSE i \in 1 .. Len(vs) : vs[i] = y) - 1
RECURSIVE Greedy(_, _, _)
Greedy(ts, max, parts) ==
  IF ts = <<>> THEN parts
  ELSE LET x == Head(ts) n == Len(parts) wide == FirstUse(parts[n].v, x)
           fits == Len(wide) <= max
           vs == IF fits THEN wide ELSE FirstUse(<<>>, x)
           tri == [k \in 1 .. 3 |-> Place(vs, x[k])] IN
       Greedy(Tail(ts), max, IF fits THEN [parts EXCEPT ![n] = [v |-> vs, t |-> Append(@.t, tri)]] ELSE Append(parts, [v |-> vs, t |-> <<tri>>]))
\* ------------------------------------------------------------------ what packing may do to a value v: k steps of num / den from o (all in eighths)
Steps(type, c, p, lo, hi) == IF p.has THEN [o |-> p.c[c].o, num |-> p.c[c].s, den |-> 1] ELSE [o |-> lo[c], num |-> hi[c] - lo[c], den |-> MaxFor(Bits(type)[c])]
Half(num) == IF num < 16 THEN num \div 2 ELSE (num + (num \div 16) + 1) \div 2
Off(s, k, v) == AbsV(k * s.num - (v - s.o) * s.den)
\* the nearest step (either one when halfway, and where so many bits are more than a float can tell apart, one next to it), or one within a whole step
Nearest(s, bits, k, v) == IF s.num = 0 THEN k = 0 ELSE k \in 0 .. MaxFor(bits) /\ Off(s, k, v) <= (IF bits > 16 THEN s.num ELSE Half(s.num))
Within(s, bits, k, v) == IF s.num = 0 THEN k = 0 ELSE k \in 0 .. MaxFor(bits) /\ Off(s, k, v) <= s.num + (s.num \div 16)
\* unpacked again, u in 1024ths of an eighth
Tiny(v) == AbsV(v) <= 2000
Reads(s, u, v, steps) == AbsV(u - 1024 * v) <= (steps * ((s.num * 512) \div s.den)) + 2
Huge(v) == AbsV(v) > 1000000000
Cross2(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
\* ------------------------------------------------------------------ an immutable mesh d made of vertices src (src[j] is what its vertex j - 1 was made of), formats as and parameters ps being those kept
\* d: x[j][a] = [k |-> packed integers, u |-> unpacked values]; the format, bounds, coding parameters and sizes as reported
ParamOf(ps, a) == IF Len(ps) = 0 THEN NoParam ELSE ps[a]
Plain(as, vs, ps, a) == LET b == LoHi(as, vs, a) IN \A c \in 1 .. Comps(as, a) : ~Huge(b.lo[c]) /\ ~Huge(b.hi[c])
\* position components are left to PositionsOK
Components(as, src, ps, d, a) ==
  LET b == LoHi(as, src, a) type == as[a].t p == ParamOf(ps, a) pos == as[a].id = "kPosition" IN
  IF Unpacked(type) THEN \A j \in 1 .. Len(src) : d.x[j][a].u = src[j][a] /\ d.x[j][a].k = <<>>
  ELSE \A c \in 1 .. Comps(as, a) :
    IF Huge(b.lo[c]) \/ Huge(b.hi[c]) THEN \A j \in 1 .. Len(src) : d.x[j][a].k[c] \in 0 .. MaxFor(Bits(type)[c])
    ELSE LET s == Steps(type, c, p, b.lo, b.hi) bits == Bits(type)[c] IN
         \A j \in 1 .. Len(src) : LET k == d.x[j][a].k[c] v == src[j][a][c] IN
           /\ (IF pos THEN Within(s, bits, k, v) ELSE Nearest(s, bits, k, v))
           /\ (Tiny(v) => Reads(s, d.x[j][a].u[c], v, IF pos \/ bits > 16 THEN 2 ELSE 1))
\* positions: all nearest, or none of the triangles is flipped, none having been to begin with. exact: steps are such that floating point adds no error
PosK(as, d, j) == d.x[j + 1][PositionIndex(as)].k
ClearlyFlipped(as, d, exact) == \E i \in 1 .. Len(d.t) : Cross2(PosK(as, d, d.t[i][1]), PosK(as, d, d.t[i][2]), PosK(as, d, d.t[i][3])) < (IF exact THEN 0 ELSE -16)
FlippedBefore(as, src, d) == \E i \in 1 .. Len(d.t) : LET q == PositionIndex(as) IN Cross2(src[d.t[i][1] + 1][q], src[d.t[i][2] + 1][q], src[d.t[i][3] + 1][q]) < 0
AllNearest(as, src, ps, d) == LET a == PositionIndex(as) type == as[a].t b == LoHi(as, src, a) IN
  \A c \in 1 .. 2 : \A j \in 1 .. Len(src) : Nearest(Steps(type, c, ParamOf(ps, a), b.lo, b.hi), Bits(type)[c], d.x[j][a].k[c], src[j][a][c])
\* steps of whole eighths, as custom parameters have, are exact
Floor(s, v) == ((v - s.o) * s.den) \div s.num
\* the nearest choices, and the ones a correction has
Nears(s, bits, v) == {k \in {Floor(s, v), Floor(s, v) + 1} : Nearest(s, bits, k, v)}
Corners(s, bits, v) == {k \in {Floor(s, v), Floor(s, v) + 1} : k \in 0 .. MaxFor(bits) /\ Off(s, k, v) < s.num}
Choices(f1, f2, p) == {<<x, y>> : x \in f1[p[1]], y \in f2[p[2]]}
\* whether one triangle of points a, b, c, none of which is shared, can be kept from being flipped, steps s1 and s2 being exact
Fixable(s1, s2, m, a, b, c) ==
  LET pick(p) == {<<x, y>> : x \in Corners(s1, m, p[1]), y \in Corners(s2, m, p[2])} IN \E p \in pick(a), q \in pick(b), r \in pick(c) : Cross2(p, q, r) >= 0
PositionsOK(as, src, ps, d) ==
  LET a == PositionIndex(as) type == as[a].t b == LoHi(as, src, a) p == ParamOf(ps, a) IN
  IF Unpacked(type) \/ Bits(type)[2] > 16 \/ ~Plain(as, src, ps, a) THEN TRUE
  ELSE LET s1 == Steps(type, 1, p, b.lo, b.hi) s2 == Steps(type, 2, p, b.lo, b.hi) IN
       IF \E i \in 1 .. Len(src) : ~Tiny(src[i][a][1]) \/ ~Tiny(src[i][a][2]) THEN TRUE
       ELSE IF FlippedBefore(as, src, d) THEN AllNearest(as, src, ps, d)
       ELSE /\ ClearlyFlipped(as, d, p.has) => AllNearest(as, src, ps, d)
            /\ (Len(d.t) = 1 /\ p.has) => (ClearlyFlipped(as, d, TRUE) => ~Fixable(s1, s2, Bits(type)[1], src[d.t[1][1] + 1][a], src[d.t[1][2] + 1][a], src[d.t[1][3] + 1][a]))
\* everything a mesh reports
U(as, d, j) == d.x[j + 1][PositionIndex(as)].u
MeshSays(as, idx, src, ps, d) ==
  /\ d.as = as /\ d.idx = idx /\ d.nv = Len(src) /\ Len(d.x) = d.nv /\ d.nt = Len(d.t)
  /\ LET sh == Shape(as, idx) IN d.vs = sh.ps /\ d.is = 2 /\ d.rv = sh.ps * d.nv /\ d.ri = 6 * d.nt
  /\ d.pos = PositionIndex(as) - 1
  /\ \A i \in 1 .. Len(d.t) : \A k \in 1 .. 3 : d.t[i][k] < d.nv
  /\ d.gt = [i \in 1 .. Len(d.t) |-> U(as, d, d.t[i][1]) \o U(as, d, d.t[i][2]) \o U(as, d, d.t[i][3])]
  /\ d.vp = [j \in 1 .. d.nv |-> U(as, d, j - 1)]
  /\ (IF d.nv = 0 THEN ~d.b.has /\ d.bb = <<>> /\ \A a \in 1 .. Len(as) : d.cp[a] = [c \in 1 .. Comps(as, a) |-> [o |-> 0, s |-> 8]]
      ELSE /\ d.b.has /\ \A a \in 1 .. Len(as) : LET b == LoHi(as, src, a) IN d.b.lo[a] = b.lo /\ d.b.hi[a] = b.hi
           /\ LET b == LoHi(as, src, PositionIndex(as)) IN d.bb = b.lo \o b.hi
           /\ \A a \in 1 .. Len(as) : LET p == ParamOf(ps, a) b == LoHi(as, src, a) IN
                IF Unpacked(as[a].t) THEN d.cp[a] = [c \in 1 .. Comps(as, a) |-> [o |-> 0, s |-> 8]]
                ELSE IF p.has THEN d.cp[a] = p.c ELSE \A c \in 1 .. Comps(as, a) : d.cp[a][c].o = b.lo[c] /\ (b.lo[c] = b.hi[c] => d.cp[a][c].s = 8)
           /\ \A a \in 1 .. Len(as) : Components(as, src, ps, d, a))
\* made from arrays: vertices and triangles are those given
CreatedFrom(as, idx, vs, indices, ps, d) ==
  /\ MeshSays(as, idx, vs, ps, d)
  /\ d.t = [i \in 1 .. Len(indices) \div 3 |-> <<indices[3 * i - 2], indices[3 * i - 1], indices[3 * i]>>]
  /\ Len(vs) > 0 => LET a == PositionIndex(as) IN Unpacked(as[a].t) \/ ~Plain(as, vs, ps, a) \/ AllNearest(as, vs, ps, d)
\* made from a mutable mesh: triangles are the mesh's in order, each of its corners meaning one of the mesh's vertices, each vertex used meaning one of the new ones
Origin(m, d, j) == LET i == CHOOSE i \in 1 .. Len(d.t) : j \in Range(d.t[i]) IN m.t[i][CHOOSE k \in 1 .. 3 : d.t[i][k] = j]
PackedFrom(m, om, ps, d) ==
  /\ Len(d.t) = Len(m.t) /\ d.nv = Cardinality(Used(m)) /\ UNION {Range(d.t[i]) : i \in 1 .. Len(d.t)} = 0 .. d.nv - 1
  /\ LET from == [j \in 1 .. d.nv |-> Origin(m, d, j - 1)] as == Kept(m.as, om) src == [j \in 1 .. d.nv |-> Keep(m.as, om, m.v[from[j] + 1], 1)] IN
     /\ \A i \in 1 .. Len(m.t) : \A k \in 1 .. 3 : from[d.t[i][k] + 1] = m.t[i][k]
     /\ MeshSays(as, m.idx, src, ps, d)
     /\ PositionsOK(as, src, ps, d)
\* ------------------------------------------------------------------ partitioned meshes: groups of [meshes |-> <<[n |-> vertices, t |-> triangles, f |-> format], ...>>, outlines |-> <<<<[m, v], ...>>, ...>>]
RECURSIVE Total(_)
Total(gs) == IF gs = <<>> THEN 0 ELSE Len(Head(gs).meshes) + Total(Tail(gs))
GroupOK(g) ==
  /\ \A i \in 1 .. Len(g.meshes) : g.meshes[i].t > 0 /\ g.meshes[i].f = g.meshes[1].f
  /\ \A o \in 1 .. Len(g.outlines) : g.outlines[o] # <<>> /\ \A j \in 1 .. Len(g.outlines[o]) : LET x == g.outlines[o][j] IN x.m < Len(g.meshes) /\ x.v < g.meshes[x.m + 1].n
\* (the documentation allows MaxMeshes meshes, the tests do not)
GroupsOK(gs) == IF \E i \in 1 .. Len(gs) : ~GroupOK(gs[i]) THEN "no" ELSE CASE Total(gs) < MaxMeshes -> "yes" [] Total(gs) > MaxMeshes -> "no" [] OTHER -> "either"
\* groups made of mutable meshes: outlines are sequences of the mutable mesh's vertices; what is left of them
LeftOf(m, o) == SelectSeq(o, LAMBDA v : v \in Used(m))
OutlinesOK(m, os) == IF \E i \in 1 .. Len(os) : \E j \in 1 .. Len(os[i]) : os[i][j] >= Len(m.v) THEN "no" ELSE IF \E i \in 1 .. Len(os) : os[i] # <<>> /\ LeftOf(m, os[i]) = <<>> THEN "either" ELSE "yes"
NotEmpty(os) == SelectSeq(os, LAMBDA o : o # <<>>)
=============================================================================
