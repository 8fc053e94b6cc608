------------------------------- MODULE Vectors -------------------------------
(* Elementary plane geometry over integers (quarters of the unit): what vectors, segments and triangles answer.                *)
EXTENDS PlaneGeometry
Neg(a) == <<0 - a[1], 0 - a[2]>>
Times(k, a) == <<k * a[1], k * a[2]>>
Orth(a) == <<0 - a[2], a[1]>>
Norm(a) == Dot(a, a)
\* 16 times the point at ratio r/16 from a to b
Lerp16(a, b, r) == Add(Times(16 - r, a), Times(r, b))
\* parameter of the projection of p onto the line a-b, as a fraction <<numerator, denominator>>
Project(a, b, p) == <<Dot(Sub(p, a), Sub(b, a)), Norm(Sub(b, a))>>
\* twice the signed area
Turn(a, b, c) == Cross(Sub(b, a), Sub(c, b))
=============================================================================
