------------------------- MODULE Trace_MutableMeshes -------------------------
EXTENDS Meshes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m
Xy(p) == [x |-> p[1], y |-> p[2]]
Six(x, y) == <<PosOf(x, y[1])[1], PosOf(x, y[1])[2], PosOf(x, y[2])[1], PosOf(x, y[2])[2], PosOf(x, y[3])[1], PosOf(x, y[3])[2]>>
Looks(x, d) ==
  /\ d.as = x.as /\ d.idx = x.idx /\ d.nv = Len(x.v) /\ d.nt = Len(x.t) /\ d.v = x.v /\ d.t = x.t
  /\ d.p = [i \in 1 .. Len(x.v) |-> Xy(PosOf(x, i - 1))]
Obs(x, d) ==
  /\ Looks(x, d)
  /\ LET sh == Shape(x.as, x.idx) IN d.vs = sh.us /\ d.is = sh.is /\ d.rv = sh.us * Len(x.v) /\ d.ri = 3 * sh.is * Len(x.t)
  /\ d.valid = ValidTris(x) /\ (~d.valid => d.code = 9)
  /\ d.gt = [i \in 1 .. Len(x.t) |-> IF InRange(x, x.t[i]) THEN Six(x, x.t[i]) ELSE <<>>]
After(e) ==
  CASE e.op = "reset" -> <<>>
    [] e.k = "begin" -> <<Fresh(e.as, e.idx), Fresh(e.as, e.idx)>>
    [] OTHER -> LET x == m[e.s] new ==
         CASE e.k = "fresh" -> Fresh(e.as, e.idx)
           [] e.k = "av" -> AddVertex(x, e.p)
           [] e.k = "sp" -> WithPos(x, e.i, e.p)
           [] e.k = "sa" -> SetAttr(x, e.i, e.a, e.v)
           [] e.k = "at" -> AddTri(x, e.t)
           [] e.k = "st" -> SetTri(x, e.i, e.t)
           [] e.k = "it" -> InsTri(x, e.i, e.t)
           [] e.k = "rs" -> Resized(x, e.v, e.n)
           [] e.k = "cl" -> Cleared(x)
           [] e.k = "cn" -> m[e.o]
           [] e.k = "from" -> [as |-> e.mesh.as, idx |-> e.mesh.idx, v |-> e.mesh.v, t |-> e.mesh.t]
           [] OTHER -> x IN [m EXCEPT ![e.s] = new]
\* conversions change nothing, and accept what they should; few triangles make at most one mesh
Converts(e) == e.k = "conv" => LET x == m[e.s] IN
  /\ Decides(AsMeshesOK(x, {e.om[i] : i \in 1 .. Len(e.om)}, e.ps), e.ok)
  /\ (e.ok => e.n = (IF x.t = <<>> THEN 0 ELSE 1) /\ e.triangles = Len(x.t))
OK(e) == e.op = "reset" \/ (Converts(e) /\ \A s \in 1 .. 2 : Obs(After(e)[s], e.obs[s]))
Init == l = 1 /\ m = <<>>
Next == l <= Len(Trace) /\ OK(Trace[l]) = TRUE /\ l' = l + 1 /\ m' = After(Trace[l])
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
