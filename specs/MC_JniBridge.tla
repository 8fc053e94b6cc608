--------------------------- MODULE MC_JniBridge ---------------------------
(* JStringView as a scoped acquisition over the protocol: nested views of two strings (possibly the same one, possibly    *)
(* null) with exceptions becoming pending at any point between; no protocol error, nothing left behind.                    *)
EXTENDS JniBridge, TLC
CONSTANT Depth
VARIABLES s, views, n, ok, hist
vars == <<s, views, n, ok, hist>>
Init == s = GivenRef(GivenRef(J0, 1, 101), 2, 102) /\ views = <<>> /\ n = 0 /\ ok = TRUE /\ hist = ""
Fresh == 10 + 3 * n
Open(r) == /\ n < Depth /\ s.pending = ""
           /\ views' = Append(views, IF r = 0 THEN [r |-> 0, b |-> 0] ELSE [r |-> Fresh, b |-> Fresh + 1])
           /\ IF r = 0 THEN UNCHANGED <<s, ok>>
              ELSE LET s1 == NewRef(s, r, Fresh)  s2 == GetChars(s1, Fresh, Fresh + 1) IN
                   s' = s2 /\ ok' = (ok /\ NewRefOk(s, r, Fresh) /\ GetCharsOk(s1, Fresh, Fresh + 1) /\ LengthOk(s2, Fresh))
           /\ n' = n + 1 /\ hist' = hist \o "open " \o ToString(r) \o ";"
Close == /\ views # <<>>
         /\ LET v == views[Len(views)] IN
              IF v.r = 0 THEN UNCHANGED <<s, ok>>
              ELSE LET s1 == Release(s, v.b) IN s' = DeleteRef(s1, v.r) /\ ok' = (ok /\ ReleaseOk(s, v.r, v.b) /\ DeleteRefOk(s1, v.r) /\ MayCall(s, "ReleaseStringUTFChars"))
         /\ views' = SubSeq(views, 1, Len(views) - 1) /\ n' = n /\ hist' = hist \o "close 0;"
Throw == /\ n < Depth /\ s.pending = "" /\ s' = [s EXCEPT !.pending = "java/lang/IllegalStateException"] /\ n' = n + 1
         /\ hist' = hist \o "throw 0;" /\ UNCHANGED <<views, ok>>
Next == Close \/ Throw \/ \E r \in 0..2 : Open(r)
Spec == Init /\ [][Next]_vars
Protocol == ok
NothingLeft == views = <<>> => Balanced(s)
Done == views = <<>> /\ n = Depth
Emit == Done => PrintT("BEH " \o hist)
ASSUME \A c \in Codes : StatusOf(ExceptionClass(c)) = c
ASSUME \A c, d \in Codes : c # d => ExceptionClass(c) # ExceptionClass(d)
=============================================================================
