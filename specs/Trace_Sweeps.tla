---------------------------- MODULE Trace_Sweeps ----------------------------
EXTENDS Sweeps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tol == 2 * EPS
VARIABLES l, built
\* which samples should be covered, which should not
SweepOK(e) ==
  LET C == CentresOf(e.tip) r == RadiusOf(e.tip) hs == TLCEval([i \in 1 .. Len(e.paths) |-> Swept(C, e.paths[i])]) IN
  /\ \A i \in 1 .. Len(e.paths) : Gentle(e.paths[i], Max2(e.tip.w, e.tip.h))
  /\ e.pieces = Len(e.paths)
  /\ \A k \in 1 .. Len(e.xs) : LET x == e.xs[k] IN IF x[3] = 1 THEN \E i \in 1 .. Len(hs) : ~Far(hs[i], r, x, Tol) ELSE \A i \in 1 .. Len(hs) : ~Deep(hs[i], r, x, Tol)
SamplesOK(ps, xs) == \A k \in 1 .. Len(xs) : LET x == xs[k] IN IF x[3] = 1 THEN \E i \in 1 .. Len(ps) : ~FarR(ps[i], x, Tol) ELSE \A i \in 1 .. Len(ps) : ~DeepR(ps[i], x, Tol)
RoundOK(e) == LET ps == Pieces(ExtrudedAll(<<>>, e.path)) IN e.pieces = Len(ps) /\ SamplesOK(ps, e.xs)
ExtendOK(e) == LET ps == Pieces(ExtrudedAll(ExtrudedAll(built, e.f), e.v)) IN e.pieces = Len(ps) /\ SamplesOK(ps, e.xs)
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "extend" -> ExtendOK(e)
    [] e.op = "sweep" -> SweepOK(e)
    [] e.op = "round" -> RoundOK(e)
    [] OTHER -> FALSE
Init == l = 1 /\ built = <<>>
Next == /\ l <= Len(Trace) /\ (OK(Trace[l])) = TRUE /\ l' = l + 1
        /\ built' = IF Trace[l].op = "reset" THEN <<>> ELSE IF Trace[l].op = "extend" THEN ExtrudedAll(built, Trace[l].f) ELSE built
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
