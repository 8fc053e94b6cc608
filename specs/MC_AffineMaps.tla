---------------------------- MODULE MC_AffineMaps ----------------------------
\* The algebra, over all maps with coefficients 0, +-1 (times One) and some translations: composition is application one after
\* the other, determinants multiply, and the adjugate over the determinant is the inverse, on both sides.
EXTENDS AffineMaps, TLC
CONSTANT C           \* coefficients from -C to C
Coef == {4 * x : x \in (0 - C)..C}
VARIABLES m, n
Maps == {<<a, b, c, d, e, f>> : a, b, d, e \in Coef, c \in {0, 8}, f \in {-4}}
Init == m \in Maps /\ n \in {x \in Maps : x[3] = 8}
Next == FALSE /\ UNCHANGED <<m, n>>
Div(s, k) == [i \in 1..Len(s) |-> s[i] \div k]
Product(x, y) == Div(Times16(x, y), 4)
Image(x, p) == Div(Image16(x, p), 4)
Pts == {<<0, 0>>, <<4, 0>>, <<0, 4>>, <<-8, 12>>}
Composes == \A p \in Pts : Image(Product(m, n), p) = Image(m, Image(n, p))
Determinants == Det16(Product(m, n)) * 16 = Det16(m) * Det16(n)
Units == Product(m, Identity) = m /\ Product(Identity, m) = m
\* m * adj(m) = det * identity (adj has entries over 16, det over 16)
Scaled(x, y) == <<x[1] * y[1] + x[2] * y[4], x[1] * y[2] + x[2] * y[5], x[1] * y[3] + x[2] * y[6], x[4] * y[1] + x[5] * y[4], x[4] * y[2] + x[5] * y[5], x[4] * y[3] + x[5] * y[6]>>
Inverts == LET a == Adjugate(m)  d == Det16(m)  p == Scaled(m, a)  q == Scaled(a, m)
           IN /\ p[1] = 4 * d /\ p[2] = 0 /\ p[4] = 0 /\ p[5] = 4 * d /\ p[3] + d * m[3] = 0 /\ p[6] + d * m[6] = 0
              /\ q[1] = 4 * d /\ q[2] = 0 /\ q[4] = 0 /\ q[5] = 4 * d /\ q[3] + 4 * a[3] = 0 /\ q[6] + 4 * a[6] = 0
RECURSIVE Text(_, _)
Text(a, i) == IF i > Len(a) THEN "" ELSE " " \o ToString(a[i]) \o Text(a, i + 1)
Emit == PrintT("BEH pair" \o Text(m, 1) \o Text(n, 1) \o ";")
=============================================================================
