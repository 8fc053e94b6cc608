---------------------------- MODULE Trace_Strokes ----------------------------
EXTENDS Strokes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, dict                                   \* dict: what each shape looks like (digest), learnt from freshly built strokes
Blank == <<>>
Brush(e) == e.code = (IF BrushOk(e.size, e.eps) THEN Ok ELSE Invalid)
Set(h, n) == k' = [k EXCEPT ![h] = n]
Effect(e) ==
  CASE e.f = "make" -> k' = [h \in 1..Len(e.st) |-> Make(e.fam, e.color, e.size, e.eps, e.ins)]
    [] e.f = "brush" -> Brush(e) /\ Set(e.h, IF e.code = Ok THEN SetBrush(k[e.h], e.fam, e.color, e.size, e.eps) ELSE k[e.h])
    [] e.f = "family" -> e.code = Ok /\ Set(e.h, SetFamily(k[e.h], e.fam))
    [] e.f = "color" -> e.code = Ok /\ Set(e.h, SetColor(k[e.h], e.color))
    [] e.f = "size" -> e.code = SetSizeCode(k[e.h], e.size) /\ Set(e.h, SetSize(k[e.h], e.size))
    [] e.f = "eps" -> e.code = SetEpsCode(k[e.h], e.eps) /\ Set(e.h, SetEps(k[e.h], e.eps))
    [] e.f = "inputs" -> e.code = Ok /\ Set(e.h, SetInputs(k[e.h], e.ins))
    [] e.f = "own" -> Set(e.h, SetInputs(k[e.h], k[e.h].ins))
    [] e.f = "theirs" -> Set(e.h, SetInputs(k[e.h], k[e.j].ins))
    [] e.f \in {"ownbrush", "ownfam"} -> k' = k
    [] e.f = "ownboth" -> Set(e.h, Regen(k[e.h]))
    [] e.f \in {"copy", "cctor"} -> Set(e.h, k[e.j])
    [] e.f \in {"both", "new"} -> Set(e.h, Make(e.fam, e.color, e.size, e.eps, e.ins))
    [] e.f = "given" -> Set(e.h, [k[e.h] EXCEPT !.shape = Given(e.tips)])
    [] OTHER -> FALSE
Key(s) == Generated(s.fam, s.size, s.eps, s.ins)
Facts(e) == {<<Key(e.st[h]), e.st[h].fresh>> : h \in 1..Len(e.st)} \cup (IF e.f = "given" THEN {<<Given(e.tips), e.st[e.h].g>>} ELSE {})
Reports(s, r) == r.fam = s.fam /\ r.color = s.color /\ r.size = s.size /\ r.eps = s.eps /\ r.ins = s.ins /\ <<s.shape, r.g>> \in dict' /\ r.groups = r.coats /\ r.dur = r.durp
                    /\ r.live = r.fresh /\ r.filled = r.drawn       \* built at once or while drawing: the same shape
Call(e) == /\ Effect(e) /\ dict' = dict \cup Facts(e)
           /\ \A h \in 1..Len(e.st) : Reports(k'[h], e.st[h])
           /\ \A f \in Facts(e) : \A d \in dict : d[1] = f[1] => d[2] = f[2]            \* building is deterministic
OK(e) == \/ e.op = "reset" /\ k' = Blank /\ dict' = {}
         \/ e.op = "call" /\ Call(e)
Init == l = 1 /\ k = Blank /\ dict = {}
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
==============================================================================
