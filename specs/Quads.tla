------------------------------- MODULE Quads -------------------------------
(* Quadrilaterals (parallelograms): [cx, cy, w, h, c, s, k] with centre, width >= 0, height of either sign, the cosine and     *)
(* sine of the rotation times CS, and four times the shear factor k. Lengths are integers in grid units.                       *)
EXTENDS Integers, Sequences
CONSTANT CS
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Max(a, b) == IF a < b THEN b ELSE a
\* a negative width is written as a half turn of the shape with both signs changed
Normal(q) == IF q.w < 0 THEN [q EXCEPT !.w = 0 - @, !.h = 0 - @, !.c = 0 - @, !.s = 0 - @] ELSE q
Make(cx, cy, w, h, c, s, k) == Normal([cx |-> cx, cy |-> cy, w |-> w, h |-> h, c |-> c, s |-> s, k |-> k])
\* semi-axes times 8 * CS
U8(q) == <<4 * q.w * q.c, 4 * q.w * q.s>>
V8(q) == <<q.h * (q.k * q.c - 4 * q.s), q.h * (q.k * q.s + 4 * q.c)>>
\* corners times 8 * CS
Corner8(q, i) == LET su == IF i \in {1, 4} THEN -1 ELSE 1  sv == IF i \in {1, 2} THEN -1 ELSE 1
                 IN <<8 * CS * q.cx + su * U8(q)[1] + sv * V8(q)[1], 8 * CS * q.cy + su * U8(q)[2] + sv * V8(q)[2]>>
\* coordinates of a point along the axes: Along4 is 4 * CS times the distance along the first, Across is CS times the height
Across(q, x, y) == q.c * (y - q.cy) - q.s * (x - q.cx)
Along4(q, x, y) == 4 * (q.c * (x - q.cx) + q.s * (y - q.cy)) - q.k * Across(q, x, y)
\* positive iff outside
Excess(q, x, y) == Max((2 * Abs(Across(q, x, y)) - Abs(q.h) * CS) * 2, Abs(Along4(q, x, y)) - 2 * q.w * CS)
Has(q, x, y) == Excess(q, x, y) <= 0
\* the size (times 4 * CS) that just reaches a point as well
JoinW(q, x, y) == Max(4 * q.w * CS, 2 * q.w * CS + Abs(Along4(q, x, y)))
JoinH(q, x, y) == Max(4 * Abs(q.h) * CS, 2 * Abs(q.h) * CS + 4 * Abs(Across(q, x, y)))
=============================================================================
