-------------------------- MODULE MC_MutableMeshes --------------------------
(* All short histories of two mutable meshes of one format, one often a clone of the other. Maximal histories are replayed into the code, with all kinds of  *)
(* formats; what each leaves behind is the specification's, mesh by mesh.                                                                                    *)
EXTENDS Meshes, TLC
CONSTANTS Depth, MaxV, MaxT
VARIABLES m, hist, n
As == <<[t |-> "kFloat1Unpacked", id |-> "kOpacityShift"], [t |-> "kFloat2PackedIn1Float", id |-> "kPosition"]>>
Tris == {<<0, 1, 2>>, <<2, 1, 1>>, <<3, 0, 1>>}
P(k) == <<8 * k, -8 * k>>
Init == m = [s \in 1 .. 2 |-> Fresh(As, "k16BitUnpacked16BitPacked")] /\ hist = "" /\ n = 0
T3(x) == ToString(x[1]) \o " " \o ToString(x[2]) \o " " \o ToString(x[3])
Do(s, new, text) == m' = [m EXCEPT ![s] = new] /\ hist' = hist \o text \o ";" /\ n' = n + 1
S(s) == " " \o ToString(s) \o " "
Step(s) ==
  LET x == m[s] nv == Len(x.v) nt == Len(x.t) IN
  \/ nv < MaxV /\ Do(s, AddVertex(x, P(n + 1)), "av" \o S(s) \o ToString(n + 1))
  \/ nv > 0 /\ \E i \in {0, nv - 1} : Do(s, WithPos(x, i, P(n + 1)), "sp" \o S(s) \o ToString(i) \o " " \o ToString(n + 1))
  \/ nv > 0 /\ Do(s, SetAttr(x, nv - 1, 0, <<n + 1>>), "sa" \o S(s) \o ToString(nv - 1) \o " 0 " \o ToString(n + 1))
  \/ nt < MaxT /\ \E y \in Tris : Do(s, AddTri(x, y), "at" \o S(s) \o T3(y))
  \/ nt > 0 /\ \E y \in Tris : Do(s, SetTri(x, 0, y), "st" \o S(s) \o "0 " \o T3(y))
  \/ nt < MaxT /\ \E i \in {0, nt} : Do(s, InsTri(x, i, <<1, 0, 2>>), "it" \o S(s) \o ToString(i) \o " 1 0 2")
  \/ \E v \in {0, MaxV}, t \in {0, MaxT} : Do(s, Resized(x, v, t), "rs" \o S(s) \o ToString(v) \o " " \o ToString(t))
  \/ (nv > 0 \/ nt > 0) /\ Do(s, Cleared(x), "cl" \o S(s))
  \/ \E o \in 1 .. 2 : o # s /\ Do(s, m[o], "cn" \o S(s) \o ToString(o))
Next == n < Depth /\ \E s \in 1 .. 2 : Step(s)
TypeOK == \A s \in 1 .. 2 : /\ \A i \in 1 .. Len(m[s].v) : Len(m[s].v[i]) = 2 /\ Len(m[s].v[i][1]) = 1 /\ Len(m[s].v[i][2]) = 2
                            /\ \A i \in 1 .. Len(m[s].t) : Len(m[s].t[i]) = 3
Independent == [][\E s \in 1 .. 2 : m'[s] = m[s]]_<<m, hist, n>>
\* an operation changes only what it says
Local == [][\A s \in 1 .. 2 : m'[s] # m[s] => LET a == m[s] b == m'[s] IN
             \/ b = m[3 - s] \/ b.v = a.v \/ b.t = a.t \/ Len(b.v) \in {0, MaxV}]_<<m, hist, n>>
\* inserting then looking behind it finds what was there
InsertShifts == \A s \in 1 .. 2 : \A i \in 0 .. Len(m[s].t) : LET b == InsTri(m[s], i, <<9, 9, 9>>) IN
  /\ Len(b.t) = Len(m[s].t) + 1 /\ b.t[i + 1] = <<9, 9, 9>> /\ SubSeq(b.t, 1, i) \o SubSeq(b.t, i + 2, Len(b.t)) = m[s].t
\* a mesh whose triangles are valid can be packed unless its values say otherwise; one whose triangles are not, cannot
Refusals == \A s \in 1 .. 2 : m[s].t # <<>> => (AsMeshesOK(m[s], {}, <<>>) = IF ValidTris(m[s]) THEN "yes" ELSE "no") /\ AsMeshesOK(m[s], {"kPosition"}, <<>>) = "no" /\ AsMeshesOK(m[s], {"kTexture"}, <<>>) = "no"
Emit == n = Depth => PrintT("BEH " \o hist)
Spec == Init /\ [][Next]_<<m, hist, n>>
=============================================================================
