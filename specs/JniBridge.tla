----------------------------- MODULE JniBridge -----------------------------
(* The JNI protocol seen by native code. A Java object is a number; a reference (global or local) denotes one object; a    *)
(* character buffer belongs to the string object it was taken from. State:                                                *)
(*   refs: live reference -> object,  bufs: live buffer -> object,  pending: pending exception class or "",               *)
(*   text: string object -> its modified UTF-8 text (a digest),  local: references that only die with the frame           *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
J0 == [refs |-> Empty, bufs |-> Empty, pending |-> "", local |-> {}]
Has(f, k) == k \in DOMAIN f
\* the caller hands a local reference of the frame to native code (0 is null)
GivenRef(s, r, o) == [s EXCEPT !.refs = Put(@, r, o), !.local = @ \cup {r}]
\* Calls that the VM allows while an exception is pending
AllowedPending == {"GetStringUTFChars_no", "ReleaseStringUTFChars", "DeleteGlobalRef", "DeleteLocalRef", "ExceptionOccurred", "ExceptionCheck", "ExceptionClear"}
MayCall(s, f) == s.pending = "" \/ f \in AllowedPending
NewRef(s, from, r) == [s EXCEPT !.refs = Put(@, r, s.refs[from])]
NewRefOk(s, from, r) == Has(s.refs, from) /\ ~Has(s.refs, r)
DeleteRefOk(s, r) == Has(s.refs, r) /\ r \notin s.local
DeleteRef(s, r) == [s EXCEPT !.refs = Drop(@, r)]
GetCharsOk(s, r, b) == Has(s.refs, r) /\ ~Has(s.bufs, b)
GetChars(s, r, b) == [s EXCEPT !.bufs = Put(@, b, s.refs[r])]
LengthOk(s, r) == Has(s.refs, r)
\* a buffer is released once, through a live reference to the string that it was taken from
ReleaseOk(s, r, b) == Has(s.refs, r) /\ Has(s.bufs, b) /\ s.refs[r] = s.bufs[b]
Release(s, b) == [s EXCEPT !.bufs = Drop(@, b)]
\* nothing is left behind: no buffer and no reference other than those of the frame
Balanced(s) == s.bufs = Empty /\ DOMAIN s.refs \subseteq s.local
\* Exceptions
ExceptionClass(code) == CASE code = "FAILED_PRECONDITION" -> "java/lang/IllegalStateException"
                          [] code = "INVALID_ARGUMENT" -> "java/lang/IllegalArgumentException"
                          [] code = "NOT_FOUND" -> "java/util/NoSuchElementException"
                          [] code = "OUT_OF_RANGE" -> "java/lang/IndexOutOfBoundsException"
                          [] code = "UNIMPLEMENTED" -> "java/lang/UnsupportedOperationException"
                          [] OTHER -> "java/lang/IllegalStateException"
Codes == {"FAILED_PRECONDITION", "INVALID_ARGUMENT", "NOT_FOUND", "OUT_OF_RANGE", "UNIMPLEMENTED"}
\* Java class hierarchy of the throwables used
Super == [x \in {"java/lang/ArrayIndexOutOfBoundsException", "java/lang/NumberFormatException", "java/util/InputMismatchException", "java/util/concurrent/CancellationException"} |->
            CASE x = "java/lang/ArrayIndexOutOfBoundsException" -> "java/lang/IndexOutOfBoundsException"
              [] x = "java/lang/NumberFormatException" -> "java/lang/IllegalArgumentException"
              [] x = "java/util/InputMismatchException" -> "java/util/NoSuchElementException"
              [] OTHER -> "java/lang/IllegalStateException"]
IsA(c, d) == c = d \/ (c \in DOMAIN Super /\ Super[c] = d)
StatusOf(c) == IF \E x \in Codes : IsA(c, ExceptionClass(x)) THEN CHOOSE x \in Codes : IsA(c, ExceptionClass(x)) ELSE "UNKNOWN"
=============================================================================
