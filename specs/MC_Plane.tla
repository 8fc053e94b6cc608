------------------------------ MODULE MC_Plane ------------------------------
(* All pairs of shapes on a small grid: the separating-axis form agrees with the declarative definition, distance is zero  *)
(* exactly when they meet and symmetric, and every pair is emitted for replay in the real code.                            *)
EXTENDS PlaneGeometry, TLC, SequencesExt
CONSTANTS W, H, Emit, Share
Pts == (0..W) \X (0..H)
Lt(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Shapes == {<<0>> \o p : p \in Pts} \cup {<<1>> \o p \o q : <<p, q>> \in {x \in Pts \X Pts : Lt(x[1], x[2])}}
          \cup {<<2>> \o t[1] \o t[2] \o t[3] : t \in {x \in Pts \X Pts \X Pts : Lt(x[1], x[2]) /\ Lt(x[2], x[3])}}
          \cup {<<3>> \o p \o q : <<p, q>> \in {x \in Pts \X Pts : x[1][1] <= x[2][1] /\ x[1][2] <= x[2][2]}}
Order == SetToSeq(Shapes)
N == Len(Order)
VARIABLES i, j
Str(s) == LET RECURSIVE f(_) f(k) == IF k > Len(s) THEN "" ELSE ToString(s[k]) \o (IF k < Len(s) THEN " " ELSE "") \o f(k + 1) IN f(1)
Say == (Emit => PrintT("BEH " \o Str(Order[i]) \o ";" \o Str(Order[j]) \o ";")) = TRUE
Init == i \in 1..N /\ j = i /\ Say
Next == j < N /\ i' = i /\ j' = j + 1 /\ Say'
Agree == LET A == Verts(Order[i])  B == Verts(Order[j]) IN
  (i * 7 + j) % Share = 0 =>
   /\ Meet(A, B) = MeetDecl(A, B)
   /\ SqDist(A, B, 64) = SqDist(B, A, 64)
   /\ (SqDist(A, B, 64) = 0) = Meet(A, B)
   /\ \A k \in 1..Len(A) : SqDist(A, B, 64) <= SqDist(<<A[k]>>, B, 64)
=============================================================================
