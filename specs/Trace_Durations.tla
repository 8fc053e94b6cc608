--------------------------- MODULE Trace_Durations ---------------------------
(* Validates recorded calls of ink::Duration32. Each event e: e.op, operands, e.p hardware primitive, e.r result.         *)
EXTENDS Durations, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "make" -> e.r = Construct(e.a, e.p) /\ e.fin = Finite(e.r)
    [] e.op = "makems" -> Near(e.r, Construct(e.a, e.p), 2)
    [] e.op = "const" -> e.zero = 0 /\ e.def = 0 /\ e.inf = Inf
    [] e.op = "toms" -> Near(e.r, e.p, 2) /\ ~IsNan(e.r)
    [] e.op = "neg" -> e.r = Neg(e.a)
    [] e.op = "add" -> e.r = Add(e.a, e.b, e.p) /\ e.c = e.r
    [] e.op = "sub" -> e.r = Sub(e.a, e.b, e.p) /\ e.c = e.r
    [] e.op = "mul" -> e.r \in Scale(e.a, e.b, e.p, e.nz) /\ e.c = e.r /\ e.l = e.r
    [] e.op = "div" -> e.r \in Divide(e.a, e.b, e.p, e.nz) /\ e.c = e.r
    [] e.op = "ratio" -> e.r = Ratio(e.a, e.b, e.p)
    [] e.op = "cmp" -> /\ e.eq = (e.a = e.b) /\ e.ne = (e.a # e.b) /\ e.lt = (e.a < e.b)
                       /\ e.gt = (e.a > e.b) /\ e.le = (e.a <= e.b) /\ e.ge = (e.a >= e.b)
    \* conversion to and from the wide type; e.wide is its finiteness, e.back the float read back
    [] e.op = "abseil" -> /\ (IsInf(e.a) => e.wideinf /\ e.back = e.a)
                          /\ (~e.wideinf => Near(e.back, e.p, 1))
                          /\ (e.small => ~e.wideinf)
    [] e.op = "str" -> e.s = (IF Finite(e.a) /\ e.wideinf THEN e.cat ELSE e.fmt)
    [] e.op = "hash" -> e.eq => e.same
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
