--------------------------- MODULE StrokeGeometry ---------------------------
(* What the geometry of an in-progress stroke may depend on, what its updated region must cover, and when it is well formed. *)
EXTENDS Floats, Sequences, FiniteSets
\* --- C05. seen: pairs <<key, digest>> of observations of one brush; key = <<real inputs, shown predictions, time>>
\* Two observations with the same key show the same geometry, unless one came after an update that left no volatile tip state (known finding).
Agree(seen, key, g, settled) == \A o \in seen : o[1] = key => (o[2] = g \/ settled \/ o[3])
\* --- C06. A box is <<>> (empty) or <<xmin, ymin, xmax, ymax>>
Covers(a, b) == IF b = <<>> THEN TRUE ELSE IF a = <<>> THEN FALSE ELSE a[1] <= b[1] /\ a[2] <= b[2] /\ a[3] >= b[3] /\ a[4] >= b[4]
Join(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<Min(a[1], b[1]), Min(a[2], b[2]), Max(a[3], b[3]), Max(a[4], b[4])>>
\* bounds: upper bounds of the ranges of the brush's time-since-input behaviors; since: time since the last real input
NeedsUpdate(queued, since, bounds) == queued \/ \E k \in 1..Len(bounds) : since < bounds[k]
\* --- C07
SeqSet(s) == {s[k] : k \in 1..Len(s)}
Used(tri) == UNION {SeqSet(tri[k]) : k \in 1..Len(tri)}
BoxOf(P) == IF P = {} THEN <<>> ELSE LET xs == {p[1] : p \in P}   ys == {p[2] : p \in P} IN
  <<CHOOSE x \in xs : \A y \in xs : x <= y, CHOOSE x \in ys : \A y \in ys : x <= y, CHOOSE x \in xs : \A y \in xs : y <= x, CHOOSE x \in ys : \A y \in ys : y <= x>>
WellFormed(c) ==
  /\ c.nonfinite = 0
  /\ \A k \in 1..Len(c.pos) : Finite(c.pos[k][1]) /\ Finite(c.pos[k][2])
  /\ \A k \in 1..Len(c.tri) : LET t == c.tri[k] IN t[1] < Len(c.pos) /\ t[2] < Len(c.pos) /\ t[3] < Len(c.pos) /\ t[1] # t[2] /\ t[2] # t[3] /\ t[1] # t[3]
  /\ \A k \in 1..Len(c.outl) : \A j \in 1..Len(c.outl[k]) : c.outl[k][j] < Len(c.pos)
  /\ Covers(c.box, BoxOf({c.pos[v + 1] : v \in Used(c.tri)}))
RECURSIVE CopiedOutlines(_, _, _)
CopiedOutlines(outl, used, k) ==                       \* lengths of the outlines of the copy: vertices of no triangle are left out, and outlines of such
  IF k > Len(outl) THEN <<>>
  ELSE LET n == Len(SelectSeq(outl[k], LAMBDA v : v \in used)) IN (IF n = 0 THEN <<>> ELSE <<n>>) \o CopiedOutlines(outl, used, k + 1)
\* The copy has the same triangles and outlines, every corner within one packing step per component of the original
CopyOf(c) == c.ntri = Len(c.tri) /\ c.steps <= 1 /\ c.olen = CopiedOutlines(c.outl, Used(c.tri), 1)
=============================================================================
