-------------------------- MODULE Trace_MeshFormats --------------------------
EXTENDS MeshFormats, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IdxKnown(i) == i \in {"k16BitUnpacked16BitPacked", "k32BitUnpacked16BitPacked"}
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "type" -> /\ e.n = Types[e.t].n /\ e.bits = Types[e.t].bits /\ e.unpacked = Unpacked(e.t) /\ e.floats = (Types[e.t].into = "floats")
                        /\ e.us = UnpackedSize(e.t) /\ e.ps = PackedSize(e.t)
    [] e.op = "limits" -> e.max = MaxAttributes /\ e.i16 = 2 /\ e.i32 = 4
    [] e.op = "default" -> e.shape = Shape(DefaultAttributes, DefaultIndex)
    [] e.op = "create" -> e.ok = Valid(e.as) /\ (e.ok => e.shape = Shape(e.as, e.idx)) /\ (~e.ok => e.code = 3)
    [] e.op = "without" -> LET r == {e.rem[i] : i \in 1 .. Len(e.rem)} IN
         e.ok = CanRemove(e.as, r) /\ (e.ok => e.shape = Shape(Without(e.as, r), e.idx)) /\ (~e.ok => e.code = 3) /\ e.before = Shape(e.as, e.idx)
    [] e.op = "pair" -> /\ e.eq = Equal(e.as, e.i, e.bs, e.j) /\ e.ne = ~e.eq /\ e.packed = PackedEq(e.as, e.bs) /\ e.unpacked = UnpackedEq(e.as, e.bs)
                        /\ (e.eq => e.hash /\ e.text)                 \* equal formats hash and print alike
                        /\ (e.text => e.eq)                           \* and a format's text says all there is
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
