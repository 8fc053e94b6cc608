-------------------------- MODULE Trace_JniBridge --------------------------
(* Every JNI call that the real code makes on the recording VM, and what the native side got out of it.                   *)
EXTENDS JniBridge, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, thrown
Same == UNCHANGED <<s, thrown>>
OK(e) ==
  CASE e.op = "reset" -> s' = J0 /\ thrown' = <<>>
    [] e.op = "frame" -> Balanced(s) /\ s' = [J0 EXCEPT !.pending = s.pending] /\ UNCHANGED thrown
    [] e.op = "given" -> s' = GivenRef(s, e.r, e.o) /\ UNCHANGED thrown
    [] e.op = "NewRef" -> MayCall(s, e.f) /\ NewRefOk(s, e.from, e.r) /\ UNCHANGED thrown
                          /\ s' = IF e.f = "NewLocalRef" THEN [NewRef(s, e.from, e.r) EXCEPT !.local = @ \cup {e.r}] ELSE NewRef(s, e.from, e.r)
    [] e.op = "DeleteGlobalRef" -> DeleteRefOk(s, e.r) /\ s' = DeleteRef(s, e.r) /\ UNCHANGED thrown
    [] e.op = "DeleteLocalRef" -> Has(s.refs, e.r) /\ e.r \in s.local /\ s' = [DeleteRef(s, e.r) EXCEPT !.local = @ \ {e.r}] /\ UNCHANGED thrown
    [] e.op = "GetStringUTFChars" -> MayCall(s, e.op) /\ GetCharsOk(s, e.r, e.b) /\ s' = GetChars(s, e.r, e.b) /\ UNCHANGED thrown
    [] e.op = "ReleaseStringUTFChars" -> ReleaseOk(s, e.r, e.b) /\ s' = Release(s, e.b) /\ UNCHANGED thrown
    [] e.op = "read" -> MayCall(s, e.f) /\ LengthOk(s, e.r) /\ Same           \* GetStringUTFLength, GetStringLength, GetStringUTFRegion
    [] e.op = "query" -> MayCall(s, e.f) /\ Same                              \* FindClass, GetMethodID, ...
    [] e.op = "ExceptionCheck" -> e.r = (s.pending # "") /\ Same
    [] e.op = "ExceptionClear" -> s' = [s EXCEPT !.pending = ""] /\ UNCHANGED thrown
    [] e.op = "ThrowNew" -> /\ MayCall(s, e.op)
                            /\ s' = [s EXCEPT !.pending = e.class] /\ thrown' = Append(thrown, [class |-> e.class, msg |-> e.msg])
    [] e.op = "raise" -> s' = [s EXCEPT !.pending = e.class] /\ UNCHANGED thrown    \* Java code threw
    \* observations
    [] e.op = "text" -> e.got = e.want /\ e.len = e.wantlen /\ Same            \* the native text is that of the Java string
    [] e.op = "end" -> Balanced(s) /\ Same
    [] e.op = "throw" -> /\ e.returned = (e.code = "OK")                       \* CheckOkOrThrow / ThrowExceptionFromStatus
                         /\ thrown = (IF e.code = "OK" THEN <<>> ELSE <<[class |-> ExceptionClass(e.code), msg |-> e.msg]>>)
                         /\ s' = [s EXCEPT !.pending = ""] /\ thrown' = <<>>
    [] e.op = "throwas" -> thrown = <<[class |-> e.class, msg |-> e.msg]>> /\ s' = [s EXCEPT !.pending = ""] /\ thrown' = <<>>
    [] e.op = "catch" -> /\ e.code = (IF e.class = "" THEN "OK" ELSE StatusOf(e.class))
                         /\ e.msg = (IF e.class = "" THEN "" ELSE e.want)
                         /\ s.pending = "" /\ thrown = <<>> /\ Same             \* the exception was cleared, no other was thrown
    [] OTHER -> FALSE
Init == l = 1 /\ s = J0 /\ thrown = <<>>
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
