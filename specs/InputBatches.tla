---------------------------- MODULE InputBatches ----------------------------
(* Batches of stroke inputs as lists. An input is <<tool, x, y, t, unit, pressure, tilt, orientation>> with encoded floats *)
(* (Floats.tla); unit 0 and pressure, tilt, orientation -1.0 mean "not reported". A handle holds a list; operations act on  *)
(* the list of their handle only, however the handles share storage.                                                       *)
EXTENDS Floats, Sequences
MinusOne == 0 - 1065353216
HalfPi == 1070141403
TwoPi == 1086918619
Tool(i) == i[1]   X(i) == i[2]   Y(i) == i[3]   T(i) == i[4]   Unit(i) == i[5]   Pressure(i) == i[6]   Tilt(i) == i[7]   Orientation(i) == i[8]
HasUnit(i) == Unit(i) # 0
HasP(i) == Pressure(i) # MinusOne   HasT(i) == Tilt(i) # MinusOne   HasO(i) == Orientation(i) # MinusOne
ValidInput(i) ==
  /\ Tool(i) \in 0..3
  /\ Finite(X(i)) /\ Finite(Y(i))
  /\ Finite(T(i)) /\ T(i) >= 0
  /\ HasUnit(i) => (Finite(Unit(i)) /\ Unit(i) > 0)
  /\ HasP(i) => (0 <= Pressure(i) /\ Pressure(i) <= One)
  /\ HasT(i) => (0 <= Tilt(i) /\ Tilt(i) <= HalfPi)
  /\ HasO(i) => (0 <= Orientation(i) /\ Orientation(i) <= TwoPi)
SameFormat(a, b) == /\ Tool(a) = Tool(b) /\ Unit(a) = Unit(b)
                    /\ HasP(a) = HasP(b) /\ HasT(a) = HasT(b) /\ HasO(a) = HasO(b)
Follows(a, b) == /\ SameFormat(a, b) /\ T(a) <= T(b)
                 /\ ~(X(a) = X(b) /\ Y(a) = Y(b) /\ T(a) = T(b))
ValidSeq(q) == (\A k \in 1..Len(q) : ValidInput(q[k])) /\ (\A k \in 1..Len(q) - 1 : Follows(q[k], q[k + 1]))
Joins(q, r) == q = <<>> \/ r = <<>> \/ Follows(q[Len(q)], r[1])
\* Each operation on the list q: whether it is accepted, and the list afterwards (a refused operation changes nothing)
AppendOk(q, r) == ValidSeq(r) /\ Joins(q, r)
AppendTo(q, r) == IF AppendOk(q, r) THEN q \o r ELSE q
SetOk(q, k, i) == /\ ValidInput(i)
                  /\ Len(q) > 1 => ((k > 1 => Follows(q[k - 1], i)) /\ (k < Len(q) => Follows(i, q[k + 1])))
SetAt(q, k, i) == IF SetOk(q, k, i) THEN [q EXCEPT ![k] = i] ELSE q
JoinOk(q, r) == Joins(q, r)                       \* r is itself a batch
Erase(q, start, n) == SubSeq(q, 1, start) \o SubSeq(q, start + n + 1, Len(q))    \* n <= Len(q) - start
\* np: the transformed positions
Transform(q, np) == [k \in 1..Len(q) |-> [q[k] EXCEPT ![2] = np[k][1], ![3] = np[k][2]]]
\* What the accessors report about a list
Reports(q, r) ==
  /\ r.c = q /\ r.it = q /\ r.size = Len(q) /\ r.empty = (q = <<>>)
  /\ r.tool = (IF q = <<>> THEN 0 ELSE Tool(q[1]))
  /\ r.unit = (IF q = <<>> THEN 0 ELSE Unit(q[1]))               \* 0: no value
  /\ r.hasu = (q # <<>> /\ HasUnit(q[1]))
  /\ r.hasp = (q # <<>> /\ HasP(q[1])) /\ r.hast = (q # <<>> /\ HasT(q[1])) /\ r.haso = (q # <<>> /\ HasO(q[1]))
  /\ r.dur = (IF q = <<>> THEN 0 ELSE r.dp)
=============================================================================
