----------------------------- MODULE Trace_Meshes -----------------------------
EXTENDS Meshes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Set(s) == {s[i] : i \in 1 .. Len(s)}
AsOK(e) ==
  /\ Decides(AsMeshesOK(e.m, Set(e.om), e.ps), e.ok)
  /\ e.ok => IF e.m.t = <<>> THEN e.ds = <<>> ELSE Len(e.ds) = 1 /\ PackedFrom(e.m, Set(e.om), e.ps, e.ds[1])
CreatedOK(e) ==
  /\ Decides(CreateOK(e.as, e.cs, e.vs, e.indices, e.ps), e.ok)
  /\ (~e.ok => e.code = 3)
  /\ (e.ok => CreatedFrom(e.as, e.idx, e.vs, e.indices, e.ps, e.d))
BigOK(e) ==
  /\ e.ok /\ e.got = e.want /\ e.conflicts = 0 /\ e.off = 0 /\ e.differ = 0 /\ e.go = e.wo /\ e.n = Len(e.ms)
  /\ \A i \in 1 .. Len(e.ms) : e.ms[i].nv <= MaxVertices /\ e.ms[i].used = e.ms[i].nv /\ e.ms[i].nt > 0 /\ e.ms[i].bounds
  /\ Sum([i \in 1 .. Len(e.ms) |-> e.ms[i].nt]) = e.nt
  /\ (e.used <= MaxVertices => Len(e.ms) = 1 /\ e.ms[1].nv = e.used)
WideOK(e) == e.ok = (e.nv <= MaxVertices) /\ (e.ok => e.n = e.nv /\ e.t = <<0, e.nv - 1, 1>> /\ \A c \in 1 .. 2 : AbsV(e.last[c] - e.want[c]) <= 8192)
\* what groups of immutable meshes look like from outside; their vertices lie where At says
At(lb, i) == <<8 * (10 * lb + i), 8 * ((i % 2) + (lb % 3))>>
RECURSIVE Flat(_)
Flat(x) == IF x = <<>> THEN <<>> ELSE Head(x).meshes \o Flat(Tail(x))
Labels(ms) == [i \in 1 .. Len(ms) |-> ms[i].label]
RECURSIVE Places(_, _)
Places(ms, o) == IF o = <<>> THEN <<>> ELSE At(ms[Head(o).m + 1].label, Head(o).v) \o Places(ms, Tail(o))
GroupIs(g, o) ==
  /\ (IF g.meshes = <<>> THEN o.f \in {0, 3} ELSE o.f = g.meshes[1].f)
  /\ o.meshes = Labels(g.meshes) /\ o.outlines = g.outlines
  /\ o.on = [i \in 1 .. Len(g.outlines) |-> Len(g.outlines[i])]
  /\ o.op = [i \in 1 .. Len(g.outlines) |-> Places(g.meshes, g.outlines[i])]
BoundsOf(ms) == IF ms = <<>> THEN <<>> ELSE
  LET ps == UNION {{At(ms[i].label, j) : j \in 0 .. ms[i].n - 1} : i \in 1 .. Len(ms)} xs == {p[1] : p \in ps} ys == {p[2] : p \in ps} IN <<MinOf(xs), MinOf(ys), MaxOf(xs), MaxOf(ys)>>
GroupedOK(e) ==
  /\ Decides(GroupsOK(e.gs), e.ok) /\ (~e.ok => e.code = 3)
  /\ e.ok => /\ Len(e.out) = Len(e.gs) /\ \A i \in 1 .. Len(e.gs) : GroupIs(e.gs[i], e.out[i])
             /\ e.all = Labels(Flat(e.gs)) /\ e.bb = BoundsOf(Flat(e.gs)) /\ ~e.index
ManyOK(e) ==
  /\ (e.a + e.b < MaxMeshes => e.ok) /\ (e.a + e.b > MaxMeshes => ~e.ok)
  /\ e.ok => e.n = e.a + e.b /\ e.sizes = <<e.a, e.b, 0>> /\ e.first = (IF e.b = 0 THEN 0 ELSE 2)
\* groups of mutable meshes
One(g) == And3(AsMeshesOK(g.m, Set(g.om), g.ps), OutlinesOK(g.m, g.os))
Back(m, d, o) == [i \in 1 .. Len(o) |-> Origin(m, d, o[i].v)]
MutableIs(g, o) ==
  IF g.m.t = <<>> THEN o.ds = <<>> /\ (OutlinesOK(g.m, g.os) = "yes" => o.outlines = <<>>) /\ o.as = DefaultAttributes /\ o.idx = DefaultIndex
  ELSE /\ Len(o.ds) = 1 /\ PackedFrom(g.m, Set(g.om), g.ps, o.ds[1]) /\ o.as = Kept(g.m.as, Set(g.om)) /\ o.idx = g.m.idx
       /\ \A i \in 1 .. Len(o.outlines) : \A j \in 1 .. Len(o.outlines[i]) : o.outlines[i][j].m = 0 /\ o.outlines[i][j].v < o.ds[1].nv
       /\ OutlinesOK(g.m, g.os) = "yes" => LET os == NotEmpty(g.os) IN Len(o.outlines) = Len(os) /\ \A i \in 1 .. Len(os) : Back(g.m, o.ds[1], o.outlines[i]) = LeftOf(g.m, os[i])
MutableGroupsOK(e) ==
  /\ Decides(All3(1 .. Len(e.gs), [i \in 1 .. Len(e.gs) |-> One(e.gs[i])]), e.ok)
  /\ e.ok => Len(e.out) = Len(e.gs) /\ (\A i \in 1 .. Len(e.gs) : MutableIs(e.gs[i], e.out[i])) /\ e.n = Cardinality({i \in 1 .. Len(e.gs) : e.gs[i].m.t # <<>>})
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "part" -> PartitionOf(e.ts, e.max, e.parts)
    [] e.op = "create" -> CreatedOK(e)
    [] e.op = "as" -> AsOK(e)
    [] e.op = "big" -> BigOK(e)
    [] e.op = "wide" -> WideOK(e)
    [] e.op = "groups" -> GroupedOK(e)
    [] e.op = "many" -> ManyOK(e)
    [] e.op = "mgroups" -> MutableGroupsOK(e)
Init == l = 1
Next == l <= Len(Trace) /\ OK(Trace[l]) = TRUE /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
Spec == Init /\ [][Next]_l
=============================================================================
