-------------------------- MODULE Trace_AffineMaps --------------------------
(* Maps in quarters (m, n), points in quarters. got: results over 16 (exact) unless an event says otherwise.                   *)
EXTENDS AffineMaps, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Max(a, b) == IF a < b THEN b ELSE a
Near(a, b, t) == Abs(a - b) <= t
Of(e) == LET a == e.a IN
  CASE e.name = "identity" \/ e.name = "default" -> Identity
    [] e.name = "coefficients" -> a
    [] e.name = "translate" -> Translate(a[1], a[2])
    [] e.name = "scale" -> Scale(a[1], a[1])
    [] e.name = "scale2" -> Scale(a[1], a[2])
    [] e.name = "scaleX" -> Scale(a[1], One)
    [] e.name = "scaleY" -> Scale(One, a[1])
    [] e.name = "shearX" -> ShearX(a[1])
    [] e.name = "shearY" -> ShearY(a[1])
Over16(m) == [i \in 1..6 |-> 4 * m[i]]
\* scaling about a point: everything moves straight away from it
About16(sx, sy, p) == <<4 * sx, 0, 4 * p[1] - sx * p[1], 0, 4 * sy, 4 * p[2] - sy * p[2]>>
\* rotations: matrix times 4096 against cosine and sine times 4096
Turn(e) == LET c == e.cs[1]  s == e.cs[2]  p == e.p  g == e.got IN
  /\ Near(g[1], c, 2) /\ Near(g[2], 0 - s, 2) /\ Near(g[4], s, 2) /\ Near(g[5], c, 2)
  /\ Near(4 * g[3], p[1] * (4096 - c) + p[2] * s, 4 * (2 + Abs(p[1]) + Abs(p[2]))) /\ Near(4 * g[6], p[2] * (4096 - c) - p[1] * s, 4 * (2 + Abs(p[1]) + Abs(p[2])))
\* inverse entries times 4096
InverseOK(e) ==
  IF ~e.some THEN Det16(e.m) = 0
  ELSE LET d == Det16(e.m)  a == Adjugate(e.m) IN d # 0 /\ (\A i \in 1..6 : Near(e.got[i] * d, 4096 * a[i], Abs(d) * (1 + Abs(e.got[i]) \div 262144)))
\* quadrilaterals: corners before (times 256), after (times 256); e.tol covers the rounding of corners before
Corners(e) == [i \in 1..4 |-> <<(e.m[1] * e.before[i][1] + e.m[2] * e.before[i][2] + 256 * e.m[3]) \div 4, (e.m[4] * e.before[i][1] + e.m[5] * e.before[i][2] + 256 * e.m[6]) \div 4>>]
Close(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
Cross(o, p, q) == (p[1] - o[1]) * (q[2] - o[2]) - (p[2] - o[2]) * (q[1] - o[1])
Between(p, a, b, t) == p[1] >= (IF a[1] < b[1] THEN a[1] ELSE b[1]) - t /\ p[1] <= Max(a[1], b[1]) + t /\ p[2] >= (IF a[2] < b[2] THEN a[2] ELSE b[2]) - t /\ p[2] <= Max(a[2], b[2]) + t
QuadOK(e) == LET w == Corners(e)  t == e.tol IN
  /\ \A i \in 1..4 : \E j \in 1..4 : Close(e.after[i], w[j], t)
  /\ IF Det16(e.m) # 0 THEN \A j \in 1..4 : \E i \in 1..4 : Close(e.after[i], w[j], t)
     ELSE \A j \in 1..4 : \E i, k \in 1..4 : Between(w[j], e.after[i], e.after[k], t) 
\* a found map (times 4096) applied to a vertex (in quarters) against where it should go
Maps(g, p, q, t) == Near((g[1] * p[1] + g[2] * p[2]) + 4 * g[3], 4096 * q[1], t) /\ Near((g[4] * p[1] + g[5] * p[2]) + 4 * g[6], 4096 * q[2], t)
Slack(g, p) == 4 * (2 + Abs(p[1]) + Abs(p[2])) + (Abs(g[1]) + Abs(g[2]) + Abs(g[4]) + Abs(g[5])) \div 256
AllMap(e) == \A i \in 1..Len(e.from) : Maps(e.got, e.from[i], e.to[i], Slack(e.got, e.from[i]))
Area(P) == (P[2][1] - P[1][1]) * (P[3][2] - P[1][2]) - (P[2][2] - P[1][2]) * (P[3][1] - P[1][1])
FindOK(e) ==
  CASE e.kind = "segment" -> IF e.from[1] = e.from[2] THEN e.some = (e.to[1] = e.to[2]) /\ (e.some => AllMap(e) /\ e.got[1] = 4096 /\ e.got[2] = 0 /\ e.got[4] = 0 /\ e.got[5] = 4096)
                             ELSE e.some /\ AllMap(e) /\ Near(e.got[1], e.got[5], 1) /\ Near(e.got[2], 0 - e.got[4], 1)
    [] OTHER -> IF Area(e.from) = 0 THEN ~e.some ELSE e.some /\ AllMap(e)
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "make" -> e.got = Over16(Of(e))
    [] e.op = "about" -> e.got = About16(e.a[1], e.a[Len(e.a)], e.p)
    [] e.op = "turn" -> Turn(e)
    [] e.op = "mul" -> e.got = Times16(e.m, e.n)
    [] e.op = "apply" -> e.got = [i \in 1..Len(e.pts) |-> Image16(e.m, e.pts[i])]
    [] e.op = "chain" -> e.got = e.want       \* the product applied, and one map after the other, exactly on the grid
    [] e.op = "inverse" -> InverseOK(e)
    [] e.op = "quad" -> QuadOK(e)
    [] e.op = "find" -> FindOK(e)
    [] e.op = "findq" -> (e.degenerate => ~e.some) /\ (e.clear => e.some) /\ (e.some => \A i \in 1..4 : Close(e.got[i], e.want[i], e.tol))
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ OK(Trace[l]) = TRUE /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
