----------------------------- MODULE AffineMaps -----------------------------
(* Affine maps of the plane as sequences <<a,b,c,d,e,f>>: (x,y) -> (ax+by+c, dx+ey+f), with integer coefficients that are       *)
(* multiples of 1/4 (a coefficient 4 means 1), so that products and images are integers over 16.                              *)
EXTENDS Integers, Sequences
One == 4
Identity == <<One, 0, 0, 0, One, 0>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* lhs * rhs: rhs first; times 16
Times16(m, n) == <<m[1] * n[1] + m[2] * n[4], m[1] * n[2] + m[2] * n[5], m[1] * n[3] + m[2] * n[6] + One * m[3],
                   m[4] * n[1] + m[5] * n[4], m[4] * n[2] + m[5] * n[5], m[4] * n[3] + m[5] * n[6] + One * m[6]>>
Image16(m, p) == <<m[1] * p[1] + m[2] * p[2] + One * m[3], m[4] * p[1] + m[5] * p[2] + One * m[6]>>
Det16(m) == m[1] * m[5] - m[2] * m[4]
Invertible(m) == Det16(m) # 0
\* the inverse is AdjugateN / Det16, entry by entry
Adjugate(m) == <<One * m[5], 0 - One * m[2], m[2] * m[6] - m[3] * m[5], 0 - One * m[4], One * m[1], m[3] * m[4] - m[1] * m[6]>>
\* factories, arguments in quarters
Translate(x, y) == <<One, 0, x, 0, One, y>>
Scale(x, y) == <<x, 0, 0, 0, y, 0>>
ShearX(k) == <<One, k, 0, 0, One, 0>>
ShearY(k) == <<One, 0, 0, k, One, 0>>
=============================================================================
