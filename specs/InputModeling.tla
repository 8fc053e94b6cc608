---------------------------- MODULE InputModeling ----------------------------
(* What the modeler of stroke inputs promises. A modeled input is <<x, y, t, distance, ...>>; d[k] = <<distance to the previous *)
(* modeled input, that plus the distance traveled up to it>>, computed in single precision.                                     *)
EXTENDS InputBatches
MT(i) == i[3]   MD(i) == i[4]
Blank == [real |-> <<>>, stable |-> <<>>]
Prefix(q, n) == SubSeq(q, 1, n)
Ordered(e) ==
  /\ 0 <= e.stable /\ e.stable <= e.real /\ e.real <= Len(e.ins)
  /\ \A k \in 1..Len(e.ins) : /\ \A c \in 1..4 : Finite(e.ins[k][c])
                             /\ IF k = 1 THEN MD(e.ins[1]) = 0
                                ELSE /\ MT(e.ins[k - 1]) <= MT(e.ins[k]) /\ MD(e.ins[k - 1]) <= MD(e.ins[k])
                                     /\ Near(MD(e.ins[k]), e.d[k][2], 2) /\ e.d[k][1] >= e.eps - 2
Totals(e) ==
  LET n == Len(e.ins) IN
  /\ e.cd = (IF n = 0 THEN 0 ELSE MD(e.ins[n])) /\ e.ct = (IF n = 0 THEN e.now ELSE Max(MT(e.ins[n]), e.now))
  /\ e.rd = (IF e.real = 0 THEN 0 ELSE MD(e.ins[e.real])) /\ e.rt = (IF e.real = 0 THEN 0 ELSE MT(e.ins[e.real]))
\* Turning the inputs by a quarter turns positions, velocities and accelerations, and changes nothing else
Quarter(i) == <<0 - i[2], i[1], i[3], i[4], 0 - i[6], i[5], 0 - i[8], i[7], i[9], i[10], i[11]>>
Turns(e) == e.turned = [k \in 1..Len(e.ins) |-> Quarter(e.ins[k])]
\* Pressure, tilt and orientation come from the inputs: none is invented, and pressure and tilt stay within what the inputs span
Coarse(x) == IF x < 0 THEN x ELSE Max(x, 1008981770)                        \* rounding errors are relative to the largest: below 0.01 all is one
Spans(e, q, f, c) == IF q = <<>> THEN TRUE ELSE
  LET vals == {Coarse(q[k][f]) : k \in 1..Len(q)} IN
  \A k \in 1..Len(e.ins) : LET x == Coarse(e.ins[k][c]) IN (\E v \in vals : v <= x + 2048) /\ (\E v \in vals : v >= x - 2048)
Format(s, e) == LET first == s.real \o e.p IN first # <<>> => (e.tool = Tool(first[1]) /\ e.unit = Unit(first[1]))
Extend(s, e) == [real |-> s.real \o e.r, stable |-> Prefix(e.ins, e.stable)]
\* Stable results stay; the modeler's results are those of the inputs, not of how they arrived
Stays(s, e) == e.stable >= Len(s.stable) /\ Prefix(e.ins, Len(s.stable)) = s.stable
==============================================================================
