---------------------------- MODULE Trace_Quads ----------------------------
(* Histories of a quadrilateral. Arguments come in grid units (u), as order-preserving codes (k) and, for rotations, as cosine *)
(* and sine (cs). Afterwards the event has what the quadrilateral reports: its fields in units (f) and as codes (fk: centre,   *)
(* width, height, shear), its rotation (rot, rcs), corners, edges, semi-axes, area and containment answers.                    *)
EXTENDS Quads, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, q, code        \* code: <<cx, cy, w, h, shear, rotation>> as reported last
TwoPi == 1086918619
Zero == Make(0, 0, 0, 0, CS, 0, 0)
Unit(e) == [cx |-> e.f[1], cy |-> e.f[2], w |-> e.f[3], h |-> e.f[4], c |-> e.rcs[1], s |-> e.rcs[2], k |-> e.f[5]]
Expected(e) ==
  CASE e.op = "make" -> Make(e.u[1], e.u[2], e.u[3], e.u[4], e.cs[1], e.cs[2], e.u[5])
    [] e.op = "setCenter" -> [q EXCEPT !.cx = e.u[1], !.cy = e.u[2]]
    [] e.op = "setWidth" -> Normal([q EXCEPT !.w = e.u[1]])
    [] e.op = "setHeight" -> [q EXCEPT !.h = e.u[1]]
    [] e.op = "setRotation" -> [q EXCEPT !.c = e.cs[1], !.s = e.cs[2]]
    [] e.op = "setShear" -> [q EXCEPT !.k = e.u[1]]
    [] OTHER -> q
Neg(c, sign) == IF sign < 0 THEN 0 - c ELSE c
\* codes of centre, width, height and shear after an operation that does no arithmetic on them
Codes(e) ==
  LET k == e.k IN
  CASE e.op = "make" -> <<k[1], k[2], Abs(k[3]), Neg(k[4], k[3]), k[5]>>
    [] e.op = "setCenter" -> <<k[1], k[2], code[3], code[4], code[5]>>
    [] e.op = "setWidth" -> <<code[1], code[2], Abs(k[1]), Neg(code[4], k[1]), code[5]>>
    [] e.op = "setHeight" -> <<code[1], code[2], code[3], k[1], code[5]>>
    [] e.op = "setShear" -> <<code[1], code[2], code[3], code[4], k[1]>>
    [] OTHER -> SubSeq(code, 1, 5)
TurnKept(e) == e.op \in {"setCenter", "setHeight", "setShear", "join", "copy"} \/ (e.op = "setWidth" /\ e.u[1] >= 0)
Near(a, b, t) == Abs(a - b) <= t
JoinOK(e, j) ==
  /\ j.k = q.k /\ (j.h < 0 => q.h <= 0) /\ (j.h > 0 => q.h >= 0)
  /\ Near(4 * j.w, JoinW(q, e.u[1], e.u[2]) \div CS, 40) /\ Near(4 * Abs(j.h), JoinH(q, e.u[1], e.u[2]) \div CS, 24)
  /\ Excess(j, e.u[1], e.u[2]) <= 48 * CS
  /\ \A i \in 1..4 : LET p == Corner8(q, i) IN Excess(j, p[1] \div (8 * CS), p[2] \div (8 * CS)) <= 64 * CS
\* what it reports about itself, in units u2 = the quadrilateral reported
Reports(e, p) ==
  /\ p.w >= 0 /\ e.fk[3] >= 0 /\ e.rot >= 0 /\ e.rot < TwoPi
  /\ \A i \in 1..4 : Near(8 * CS * e.corners[i][1], Corner8(p, i)[1], 24 * CS) /\ Near(8 * CS * e.corners[i][2], Corner8(p, i)[2], 24 * CS)
  /\ Near(8 * CS * e.axes[1], U8(p)[1], 16 * CS) /\ Near(8 * CS * e.axes[2], U8(p)[2], 16 * CS) /\ Near(8 * CS * e.axes[3], V8(p)[1], 24 * CS) /\ Near(8 * CS * e.axes[4], V8(p)[2], 24 * CS)
  /\ e.edges = [i \in 1..4 |-> e.ck[i] \o e.ck[(i % 4) + 1]]
  /\ e.rectangular = (e.fk[5] = 0)
  /\ \A i \in 1..Len(e.axis) : IF ~e.rectangular THEN ~e.axis[i].yes ELSE (e.dev + 20 < e.axis[i].tol => e.axis[i].yes) /\ (e.dev > e.axis[i].tol + 20 => ~e.axis[i].yes)
  /\ (p.w % 64 = 0 /\ p.h % 64 = 0 /\ e.exact => e.area16 = (p.w \div 64) * (p.h \div 64))
  /\ (Abs(p.h) > 64 /\ p.w <= 16384 => Near(e.aspect1024 * p.h, 1024 * p.w, Abs(p.h) * 2 + 1024 + (Abs(e.aspect1024))))
  /\ \A i \in 1..Len(e.has) : LET x == Excess(p, e.has[i].x, e.has[i].y)  m == IF e.exact /\ Abs(p.c) = CS /\ e.rot = 0 THEN 0 ELSE 64 * CS
                              IN (x <= 0 - m => e.has[i].in) /\ (x > m => ~e.has[i].in)
Step(e) == LET j == Unit(e) IN
  /\ Reports(e, j)
  /\ (TurnKept(e) => e.rot = code[6])
  /\ IF e.op = "join" THEN JoinOK(e, j)
     ELSE LET x == Expected(e) IN SubSeq(e.fk, 1, 5) = Codes(e) /\ j.cx = x.cx /\ j.cy = x.cy /\ j.w = x.w /\ j.h = x.h /\ j.k = x.k /\ Near(j.c, x.c, 3) /\ Near(j.s, x.s, 3)
OK(e) ==
  CASE e.op = "reset" -> q' = Zero /\ code' = <<0, 0, 0, 0, 0, 0>>
    [] e.op = "eq" -> (e.eq = (e.a = e.b) /\ e.ne = (e.a # e.b)) = TRUE /\ UNCHANGED <<q, code>>
    [] OTHER -> Step(e) = TRUE /\ q' = Unit(e) /\ code' = e.fk \o <<e.rot>>
Init == l = 1 /\ q = Zero /\ code = <<0, 0, 0, 0, 0, 0>>
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
