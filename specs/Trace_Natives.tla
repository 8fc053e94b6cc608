--------------------------- MODULE Trace_Natives ---------------------------
(* Calls of native methods as recorded next to the C++ operations: code and msg are of the C++ status, new and mut the     *)
(* values that the C++ operation gives, seen what every live peer is afterwards, got/want what Java and C++ code get.      *)
EXTENDS Natives, TLC, Json, IOUtils
J == INSTANCE JniBridge
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, P
ToPeers(s) == [h \in {s[i].h : i \in 1..Len(s)} |-> LET e == s[CHOOSE i \in 1..Len(s) : s[i].h = h] IN [k |-> e.k, v |-> e.v]]
ToMut(s) == [h \in {s[i].h : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i].h = h].v]
\* how the outcome is told
Told(e) == LET ok == e.code = "OK" IN
  /\ e.exc = (IF ~ok /\ e.f \in Throws THEN J!ExceptionClass(e.code) ELSE "")
  /\ e.excmsg = (IF ~ok /\ e.f \in Throws THEN e.msg ELSE "")
  /\ e.hastext = (~ok /\ e.f \in Tells)
  /\ e.text = (IF ~ok /\ e.f \in Tells THEN e.msg ELSE "")
OKCall(e) ==
  LET ok == e.code = "OK"
      del == IF e.frees THEN {e.self} ELSE {}
      mut == ToMut(e.mut)  new == ToPeers(e.new)
  IN /\ e.misuse = "" /\ e.held = 0                   \* the rules of JNI were kept, no array or string is held any longer
     /\ e.fresh
     /\ Told(e)
     /\ May(P, e.f, ok, e.self, del, mut, new)
     /\ ~ok /\ e.f \in KeepsOnFailure => mut = NoPeers
     /\ e.got = e.want
     /\ P' = Step(P, del, mut, new)
     /\ ToPeers(e.seen) = P'                          \* every peer, also those that the call had nothing to do with
OK(e) ==
  CASE e.op = "reset" -> P' = NoPeers
    [] e.op = "call" -> OKCall(e)
    [] e.op = "end" -> Live(P) = {} /\ e.peers = 0 /\ e.heap = 0 /\ e.held = 0 /\ UNCHANGED P    \* all was freed, nothing is left
    [] OTHER -> FALSE
Init == l = 1 /\ P = NoPeers
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
