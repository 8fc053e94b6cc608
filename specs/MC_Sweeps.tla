------------------------------- MODULE MC_Sweeps -------------------------------
(* Round tips on a line, extended by fixed and volatile states in every division: whatever was extended and taken back, what the extrusions cover is what the     *)
(* fixed states and the last volatile ones cover; no piece is empty or has a state inside its neighbour. All histories are replayed on the real extruder.          *)
EXTENDS Sweeps
CONSTANTS Cs, Rs, MaxStates, MaxCalls
VARIABLES fixed, built, vol, calls, text
U == 160
Tips == {<<c * U, 0, r * U>> : c \in Cs, r \in Rs}
Show(e) == ToString(e[1]) \o " " \o ToString(e[3])
RECURSIVE ShowAll(_)
ShowAll(es) == IF es = <<>> THEN "" ELSE " " \o Show(Head(es)) \o ShowAll(Tail(es))
Seqs(n) == UNION {[1 .. k -> Tips] : k \in 0 .. n}
Init == fixed = <<>> /\ built = <<>> /\ vol = <<>> /\ calls = 0 /\ text = ""
Next == /\ calls < MaxCalls /\ calls' = calls + 1
        /\ \E f \in Seqs(2), v \in Seqs(1) : Len(fixed) + Len(f) + Len(v) <= MaxStates /\ Len(f) + Len(v) > 0
           /\ fixed' = fixed \o f /\ vol' = v /\ built' = ExtrudedAll(built, f)
           /\ text' = text \o "extend " \o ToString(Len(f)) \o ShowAll(f) \o ShowAll(v) \o ";"
Covers(ps, x) == \E i \in 1 .. Len(ps) : LET p == ps[i] IN IF Len(p) = 1 THEN AbsI(x - p[1][1]) <= p[1][3] ELSE \E j \in 1 .. Len(p) - 1 : Least({p[j][1] - p[j][3], p[j + 1][1] - p[j + 1][3]}) <= x /\ x <= Max2(p[j][1] + p[j][3], p[j + 1][1] + p[j + 1][3])
Xs == {x * U + U \div 2 : x \in -5 .. 12}
All == ExtrudedAll(built, vol)
Same == LET a == Pieces(All) b == Intended(fixed \o vol) IN \A x \in Xs : Covers(a, x) = Covers(b, x)
Sound == LET ps == Pieces(All) IN \A i \in 1 .. Len(ps) : ps[i] # <<>> /\ \A j \in 1 .. Len(ps[i]) - 1 : ~Inside(ps[i][j], ps[i][j + 1]) /\ ~Inside(ps[i][j + 1], ps[i][j])
Restored == built = ExtrudedAll(<<>>, fixed)
Emit == calls = MaxCalls \/ Len(fixed) + Len(vol) = MaxStates => PrintT("BEH " \o text)
\* the sweep itself: an edge's sweep is that of its halves, direction does not matter, and the circles between two circles fill their hull
Tip0 == [w |-> 320, h |-> 160, round |-> 4, rot |-> <<3, 4, 5>>, slant |-> <<1, 0, 1>>, pinch |-> 3]
Sample == {<<x * 64, y * 64>> : x \in -4 .. 10, y \in -4 .. 6}
ASSUME LET C == CentresOf(Tip0) r == RadiusOf(Tip0) IN \A p \in Sample : LET one == Swept(C, <<<<0, 0>>, <<400, 200>>>>) two == Swept(C, <<<<400, 200>>, <<200, 100>>, <<0, 0>>>>) IN (Deep(one, r, p, 8) => Deep(two, r, p, 0)) /\ (Far(one, r, p, 8) => Far(two, r, p, 0)) /\ (Deep(two, r, p, 8) => Deep(one, r, p, 0))
ASSUME \A p \in Sample : LET a == <<0, 0, 160>> b == <<400, 200, 160>> hs == Swept({<<0, 0>>}, <<<<0, 0>>, <<400, 200>>>>) IN (DeepIn(a, b, p, 8) => Deep(hs, 160, p, 0)) /\ (Deep(hs, 160, p, 8) => DeepIn(a, b, p, 0)) /\ (FarFrom(a, b, p, 8) => Far(hs, 160, p, 0)) /\ (Far(hs, 160, p, 8) => FarFrom(a, b, p, 0))
ASSUME \A n \in 0 .. 2000 : LET r == Root(n) IN r * r <= n /\ (r + 1) * (r + 1) > n
=============================================================================
