---------------------------- MODULE Trace_Packing ----------------------------
EXTENDS Meshes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
One == 8
Ints(e) == [i \in 1 .. Len(e.v) |-> Round(e.v[i] - e.c[i].o, e.c[i].s)]
Back(e, xs) == [i \in 1 .. Len(xs) |-> e.c[i].o + xs[i] * e.c[i].s]
K(e, k, err) == k \in 0 .. MaxFor(Bits(e.t)[e.c]) /\ err <= 2048 + e.slack
OK(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "pack" -> LET xs == Ints(e) IN e.single = xs /\ e.ints = xs /\ e.w = Pack(e.t, xs) /\ e.un = Back(e, xs)
    [] e.op = "raw" -> LET xs == Unpack(e.t, e.w) IN e.ints = xs /\ e.un = Back(e, xs)
    [] e.op = "plain" -> e.un = e.v /\ e.read = e.v
    [] e.op = "params" ->
         /\ e.ok = ~e.over
         /\ (~e.ok => e.code = 3)
         /\ (e.ok => LET m == MaxFor(Bits(e.t)[e.c]) IN
              /\ ~e.bad
              /\ e.o = e.lo /\ ((e.tiny /\ e.close) \/ AbsV(e.scale - 1048576) <= 2) /\ (e.lo = e.hi => e.s = 1065353216)
              /\ e.k0 = 0 /\ e.k0o /\ e.e0 = 0
              /\ K(e, e.k1, e.e1) /\ e.k1o /\ (e.lo = e.hi => e.k1 = 0) /\ (e.lo # e.hi /\ e.fine /\ ~e.tiny => e.k1 = m)
              /\ K(e, e.kx, e.ex) /\ K(e, e.ky, e.ey) /\ e.kx <= e.ky /\ e.kxo /\ e.kyo
              /\ (e.fine => e.ku = e.kx /\ e.eu = 0))
    [] e.op = "array" ->
         LET sizes == Len(e.b) = Len(e.as) /\ Len(e.ps) \in {0, Len(e.as)} 
             f == [a \in 1 .. Len(e.as) |-> OneParam(e.as[a].t, IF Len(e.ps) = 0 THEN NoParam ELSE e.ps[a], e.b[a].lo, e.b[a].hi)] IN
         /\ Decides(IF ~sizes THEN "no" ELSE All3(1 .. Len(e.as), f), e.ok) /\ (~e.ok => e.code = 3)
         /\ (e.ok => /\ Len(e.r) = Len(e.as)
                     /\ \A a \in 1 .. Len(e.as) :
                          IF Len(e.ps) # 0 /\ e.ps[a].has THEN Len(e.r[a].c) = Len(e.ps[a].c) /\ \A c \in 1 .. Len(e.r[a].c) : e.r[a].c[c].o = e.ps[a].c[c].o /\ e.r[a].c[c].sv = e.ps[a].c[c].s
                          ELSE IF Unpacked(e.as[a].t) THEN Len(e.r[a].c) = Comps(e.as, a) /\ \A c \in 1 .. Len(e.r[a].c) : e.r[a].c[c].o = 0 /\ e.r[a].c[c].sv = One
                          ELSE e.r[a] = e.d[a] /\ \A c \in 1 .. Len(e.r[a].c) : e.r[a].c[c].o = e.b[a].lo[c])
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ OK(Trace[l]) = TRUE /\ l' = l + 1
Accepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d, Trace[d]>>) /\ FALSE
=============================================================================
