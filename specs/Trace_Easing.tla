---------------------------- MODULE Trace_Easing ----------------------------
EXTENDS Easing, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "easing" -> e.ok = EasingValid(e.v)
    [] e.op = "same" -> e.eq = (e.a = e.b) /\ e.ne = ~e.eq
    [] e.op = "identity" -> e.y = e.x
    [] e.op = "line" -> \A i \in 1 .. Len(e.xs) : LineOK(e.pts, e.xs[i], e.ys[i])
    [] e.op = "far" -> LineFar(e.pts, e.side, e.far, e.y)
    [] e.op = "steps" -> \A i \in 1 .. Len(e.xs) : IAbs(e.ys[i] - StepValue(e.n, e.pos, e.xs[i])) <= 2
    [] e.op = "jump" -> StepNear(e.n, e.pos, e.k, e.y)
    [] e.op = "bezier" -> \A i \in 1 .. Len(e.xs) : BezierOK(e.f, e.xs[i], e.ys[i])
    [] e.op = "named" -> \A i \in 1 .. Len(e.xs) : PredefinedOK(e.name, e.xs[i], e.ys[i])
    [] e.op = "wild" -> /\ e.finite                                  \* every finite input has a value that is a number
                        /\ (e.below # <<>> => e.below[1] = 0) /\ (e.above # <<>> => e.above[1] = One \/ (e.k \in {"bezier", "predefined"} /\ Near(e.above[1], One, 2000)))
    [] e.op = "rising" -> \A i \in 2 .. Len(e.ys) : e.ys[i] >= e.ys[i - 1] \/ Near(e.ys[i], e.ys[i - 1], 4)
    [] e.op = "pieces" -> /\ \A i \in 1 .. Len(e.at) : In(e.at[i], 0, One) /\ (i > 1 => e.at[i] >= e.at[i - 1])
                          /\ \A i \in 1 .. Len(e.ys) : IF e.flat THEN Rises(e.ys[i]) /\ Falls(e.ys[i]) ELSE Rises(e.ys[i]) \/ Falls(e.ys[i])       \* between critical points a function only rises or only falls
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
