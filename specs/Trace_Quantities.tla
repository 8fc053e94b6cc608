-------------------------- MODULE Trace_Quantities --------------------------
(* Validates recorded operations on ink::Angle (kind "a") and ink::PhysicalDistance.                                       *)
EXTENDS Quantities, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "norm" -> e.r \in Normalized(e.a, e.p, e.q) /\ InRange(e.r) /\ e.again = e.r /\ e.jni = e.r
    [] e.op = "norm0" -> e.r = AboutZero(e.a, e.p, e.qm, e.qp) /\ InRange0(e.r) /\ e.again = e.r /\ e.jni = e.r
    [] e.op = "same" -> e.r = e.a                                                  \* made and read in the stored unit
    [] e.op = "unit" -> IF IsNan(e.p) THEN IsNan(e.r) ELSE Near(e.r, e.p, 2)        \* unit conversion, to rounding
    [] e.op = "round" -> (Finite(e.p) /\ e.normal) => Near(e.r, e.a, 2)             \* there and back again
    [] e.op = "exact" -> e.r = e.p
    [] e.op = "arith" -> Arith(e)
    [] e.op = "neg" -> e.r = Neg(e.a)
    [] e.op = "abs" -> e.r = Abs(e.a)
    [] e.op = "min" -> e.r = Min(e.a, e.b)
    [] e.op = "max" -> e.r = Max(e.a, e.b)
    [] e.op = "cmp" -> Compare(e.a, e.b, e)
    [] e.op = "finite" -> e.r = Finite(e.a)
    [] e.op = "hash" -> e.eq => e.same
    [] e.op = "str" -> e.s = e.want
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
