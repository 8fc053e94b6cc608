---------------------------- MODULE MC_Durations ----------------------------
(* Exhaustive check of the rules on sign classes: whatever IEEE hardware does, no sequence of operations makes a NaN, and *)
(* an infinite left operand absorbs. Representatives: -Inf, -1, 0, 1, Inf; the primitive may give any class IEEE allows.  *)
EXTENDS Durations, FiniteSets, TLC
VARIABLES v, last
Vals == {-Inf, -One, 0, One, Inf}
Scalars == Vals \cup {Nan}
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
OfSign(s) == IF s > 0 THEN {One, Inf, 0} ELSE IF s < 0 THEN {-One, -Inf, 0} ELSE {0}
IEEEAdd(a, b) == IF IsNan(a) \/ IsNan(b) \/ (IsInf(a) /\ IsInf(b) /\ a # b) THEN {Nan}
                 ELSE IF IsInf(a) THEN {a} ELSE IF IsInf(b) THEN {b}
                 ELSE IF Sgn(a) = Sgn(b) THEN OfSign(Sgn(a)) ELSE IF a = 0 THEN {b} ELSE IF b = 0 THEN {a} ELSE {-One, 0, One}
IEEEMul(a, b) == IF IsNan(a) \/ IsNan(b) \/ (IsInf(a) /\ b = 0) \/ (a = 0 /\ IsInf(b)) THEN {Nan}
                 ELSE IF IsInf(a) \/ IsInf(b) THEN {SignedInf(Sgn(a) * Sgn(b) > 0)} ELSE OfSign(Sgn(a) * Sgn(b))
IEEEDiv(a, b) == IF IsNan(a) \/ IsNan(b) \/ (IsInf(a) /\ IsInf(b)) \/ (a = 0 /\ b = 0) THEN {Nan}
                 ELSE IF IsInf(a) THEN {Inf, -Inf} ELSE IF IsInf(b) THEN {0} ELSE IF b = 0 THEN {Inf, -Inf} ELSE OfSign(Sgn(a) * Sgn(b))
Results ==
  UNION { {<<"add", b, Add(v, b, p)>> : p \in IEEEAdd(v, b)} : b \in Vals }
  \cup UNION { {<<"sub", b, Sub(v, b, p)>> : p \in IEEEAdd(v, Neg(b))} : b \in Vals }
  \cup UNION { UNION { {<<"mul", s, r>> : r \in Scale(v, s, p, s = 0)} : p \in IEEEMul(v, s)} : s \in Scalars }
  \cup UNION { UNION { {<<"div", s, r>> : r \in Divide(v, s, p, s = 0)} : p \in IEEEDiv(v, s)} : s \in Scalars }
  \cup UNION { {<<"ratio", b, Ratio(v, b, p)>> : p \in IEEEDiv(v, b)} : b \in Vals }
  \cup {<<"make", x, Construct(x, x)>> : x \in Scalars} \cup {<<"neg", 0, Neg(v)>>}
Init == v = 0 /\ last = <<"make", 0, 0, 0>>
Next == \E r \in Results : v' = r[3] /\ last' = <<r[1], v, r[2], r[3]>>
Spec == Init /\ [][Next]_<<v, last>>
NeverNaN == ~IsNan(v)
Absorbing == (last[1] \in {"add", "sub"} /\ IsInf(last[2])) => last[4] = last[2]
Documented ==
  /\ (last[1] = "mul" /\ IsNan(last[3])) => last[4] = SignedInf(last[2] >= 0)
  /\ (last[1] = "ratio" /\ last[2] = 0 /\ last[3] = 0) => last[4] = Inf
  /\ (last[1] = "div" /\ IsInf(last[2]) /\ IsInf(last[3])) => last[4] = SignedInf((last[2] > 0) = (last[3] > 0))
=============================================================================
