---------------------------- MODULE Trace_Polylines ----------------------------
EXTENDS Polylines, TLC, Json, IOUtils
H == INSTANCE Hulls
S == INSTANCE Tessellation
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
LineOK(e) == e.near /\ Plain(e.p) => ~e.twice /\ Squeeze(e.r) \in Outcomes(e.p, e.q)
CutOK(e) == PlainG(e.p) => CutTo(e.p, e.r, e.k)
MeshOK(e) ==
  /\ (Len(e.p) < 3 => e.code = "InvalidArgument")
  /\ (Len(e.p) >= 3 /\ S!OnALine(e.p) => e.code # "ok")
  /\ (Len(e.p) >= 3 /\ S!HasInside(<<e.p>>, "nonzero", e.xs) => e.code = "ok")
  /\ (e.code = "ok") = (e.triangles > 0)
  /\ e.code = "ok" => e.formats /\ \A i \in 1 .. Len(e.xs) : S!SampleOK(<<e.p>>, "nonzero", e.xs[i])
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "hull" -> H!HullOf(e.p, e.h)
    [] e.op = "line" -> LineOK(e)
    [] e.op = "cut" -> CutOK(e)
    [] e.op = "loose" -> KeepsOrderOf(e.p, e.r, e.on[1], e.on[2])
    [] e.op = "short" -> e.r = e.p
    [] e.op = "mesh" -> MeshOK(e)
    [] e.op = "tess" -> S!StructureOK(e.cs, e.vs, e.ts, e.new) /\ \A i \in 1 .. Len(e.xs) : S!SampleOK(e.cs, e.rule, e.xs[i])
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ (OK(Trace[l])) = TRUE /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
