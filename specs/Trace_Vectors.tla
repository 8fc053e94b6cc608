---------------------------- MODULE Trace_Vectors ----------------------------
(* Vectors and points in quarters; results over 16 where products are exact. Unit vectors and angles come times 16384.          *)
EXTENDS Vectors, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
U == 16384
Pi == 1078530011
NaN == 2147483647
Near(x, y, t) == Abs(x - y) <= t
Close(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
\* m (times 1024) is the length of a vector whose squared length over 16 is n
Length(m, n) == m >= 0 /\ (m - 1) * (m - 1) <= 65536 * n + 1 /\ (m + 1) * (m + 1) >= 65536 * n
SameDir(u, a) == Near(Norm(u), U * U, 65536) /\ Near(Cross(u, a), 0, 2 * (Abs(a[1]) + Abs(a[2]))) /\ Dot(u, a) > 0
Angle(e, ua, ub) ==      \* e.rad code, e.cs its cosine and sine
  LET d == Cross(e.a, e.b) IN
  /\ e.rad > 0 - Pi /\ e.rad <= Pi
  /\ Near(e.cs[1], Dot(ua, ub) \div U, 24) /\ (e.rad # Pi => Near(e.cs[2], Cross(ua, ub) \div U, 24)) /\ (e.rad = Pi => Near(Cross(ua, ub) \div U, 0, 24))
  /\ (d > 0 => e.rad > 0) /\ (d < 0 => e.rad < 0 \/ e.rad = Pi)
  /\ e.abs >= 0 /\ e.abs <= Pi /\ Near(e.abscs[1], e.cs[1], 2) /\ Near(e.abscs[2], Abs(e.cs[2]), 16)
VecOK(e) == LET a == e.a  b == e.b IN
  /\ e.dot = Dot(a, b) /\ e.det = Cross(a, b) /\ e.sq = Norm(a) /\ Length(e.mag, Norm(a))
  /\ e.orth = Orth(a) /\ e.neg = Neg(a) /\ e.sum = Add(a, b) /\ e.diff = Sub(a, b)
  /\ e.times = Times(e.k, a) /\ e.times2 = Times(e.k, a) /\ e.over4 = a       \* a / 4, times 16, is a in quarters
  /\ e.inplace = <<Add(a, b), Sub(a, b), Times(e.k, a), a>>
  /\ e.eq = (a = b) /\ e.ne = (a # b)
  /\ (IF a = <<0, 0>> THEN e.ua \in {<<U, 0>>, <<0 - U, 0>>} ELSE SameDir(e.ua, a))
  /\ Close(e.dir, e.ua, 3) /\ e.dirrad >= 0 - Pi /\ e.dirrad <= Pi /\ (a[2] > 0 => e.dirrad > 0) /\ (a[2] < 0 => e.dirrad < 0)
  /\ Angle(e, e.ua, e.ub)
  /\ Close(e.polar, Times(e.pm, e.dir), 32 * e.pm)       \* made from direction and magnitude pm
PointOK(e) == e.plus = Add(e.a, e.b) /\ e.plus2 = Add(e.a, e.b) /\ e.minus = Sub(e.a, e.b) /\ e.between = Sub(e.a, e.b) /\ e.offset = e.a /\ e.inplace = <<Add(e.a, e.b), Sub(e.a, e.b)>> /\ e.eq = (e.a = e.b) /\ e.ne = (e.a # e.b)
\* any floats (codes): the unit vector's length, signs and larger component; none where a component is not a number
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Inf == 2139095040
RawUnit(e) == LET x == e.a[1]  y == e.a[2]  u == e.u IN
  IF x = NaN \/ y = NaN THEN e.isnan
  ELSE /\ ~e.isnan /\ Near(Norm(u), U * U, 65536)
       /\ (Sgn(u[1]) = Sgn(x) \/ u[1] = 0 \/ (x = 0 /\ y = 0)) /\ (Sgn(u[2]) = Sgn(y) \/ u[2] = 0)
       /\ (Abs(x) > Abs(y) => Abs(u[1]) >= Abs(u[2])) /\ (Abs(y) > Abs(x) => Abs(u[2]) >= Abs(u[1])) /\ (Abs(x) = Abs(y) /\ x # 0 => Near(Abs(u[1]), Abs(u[2]), 2))
       /\ (Abs(x) = Inf /\ Abs(y) # Inf => u[2] = 0) /\ (Abs(y) = Inf /\ Abs(x) # Inf => u[1] = 0)
       /\ Close(e.dir, u, 4)
SegOK(e) == LET a == e.a  b == e.b  p == e.p  pr == Project(a, b, p) IN
  /\ e.vector = Sub(b, a) /\ Length(e.length, Norm(Sub(b, a)))
  /\ e.lerp = Lerp16(a, b, e.r) /\ e.mid = Add(a, b)         \* times 64, and times 8
  /\ (IF a = b THEN ~e.some ELSE e.some /\ Near(e.proj * pr[2], 4096 * pr[1], pr[2] + Abs(e.proj)))
  /\ e.eq = (e.c = a /\ e.d = b) /\ e.ne = ~e.eq
RawSeg(e) == /\ e.finite /\ \A i \in 1..2 : e.m[i] >= Min2(e.a[i], e.b[i]) - 4 /\ e.m[i] <= Max2(e.a[i], e.b[i]) + 4
TriOK(e) == LET a == e.t[1]  b == e.t[2]  c == e.t[3] IN
  /\ e.area = Turn(a, b, c)           \* over 32
  /\ e.edges = << <<a, b>>, <<b, c>>, <<c, a>> >>
  /\ \A i \in 1..Len(e.p) : e.in[i] = InTri(e.p[i], a, b, c)
  /\ e.eq = (e.o = e.t) /\ e.ne = ~e.eq
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "vec" -> VecOK(e)
    [] e.op = "point" -> PointOK(e)
    [] e.op = "unit" -> RawUnit(e)
    [] e.op = "seg" -> SegOK(e)
    [] e.op = "rawseg" -> RawSeg(e)
    [] e.op = "tri" -> TriOK(e)
    [] e.op = "rawtri" -> e.corners
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ OK(Trace[l]) = TRUE /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
