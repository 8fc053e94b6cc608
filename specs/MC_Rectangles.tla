---------------------------- MODULE MC_Rectangles ----------------------------
\* All histories of operations on a rectangle; the documented effect of each, stated apart from how it is computed.
EXTENDS Rectangles, TLC
CONSTANT Depth
VARIABLES r, prev, last, hist, n      \* last: the operation's name, side and arguments
Other == <<16, -16, 48, 32>>
Start == <<0, 0, 64, 32>>
Vals == {-32, 0, 24, 80}
Sizes == {0, 16, 96}
Init == r = Start /\ prev = Start /\ last = <<"start", "", <<>>>> /\ hist = "" /\ n = 0
RECURSIVE Text(_, _)
Text(a, i) == IF i > Len(a) THEN "" ELSE " " \o ToString(a[i]) \o Text(a, i + 1)
Do(op, s, a) == LET x == Result8(op, r, Other, s, a) IN
  OnGrid(x) /\ r' = Down(x) /\ prev' = r /\ last' = <<op, s, a>> /\ n' = n + 1 /\ hist' = hist \o op \o " " \o (IF s = "" THEN "-" ELSE s) \o Text(a, 1) \o ";"
Next == n < Depth /\
  \/ \E x \in {0, 24}, w \in Sizes, h \in {0, 32} : Do("center", "", <<x, -8, w, h>>)
  \/ \E x, y \in Vals : Do("two", "", <<24, 0, x, y>>)
  \/ \E x \in Vals, y \in {0, 24} : \E op \in {"setCenter", "translate", "joinPoint"} : Do(op, "", <<x, y>>)
  \/ \E w \in Sizes : \E op \in {"setWidth", "setHeight"} : Do(op, "", <<w>>)
  \/ \E x \in {-40, -16, 0, 8}, y \in {-24, -16, 8} : Do("offset", "", <<x, y>>)
  \/ \E x \in {0, 1, 4, 8}, y \in {0, 2, 4} : Do("scale", "", <<x, y>>)
  \/ Do("joinRect", "", <<>>)
  \/ \E s \in {"xmin", "ymin", "xmax", "ymax"}, v \in Vals : \E op \in {"resize", "slide"} : Do(op, s, <<v>>)
  \/ \E a \in {<<1, 1>>, <<2, 1>>, <<1, 4>>} : \E op \in {"containing", "interior"} : Do(op, "", a)
  \/ Do("interior", "", <<0, 1>>)
Spec == Init /\ [][Next]_<<r, prev, last, hist, n>>
AlwaysOrdered == Ordered(r)
SameCenter == CX2(r) = CX2(prev) /\ CY2(r) = CY2(prev)
Documented == LET op == last[1]  s == last[2]  a == last[3] IN
  CASE op = "setCenter" -> W(r) = W(prev) /\ H(r) = H(prev) /\ CX2(r) = 2 * a[1] /\ CY2(r) = 2 * a[2]
    [] op = "setWidth" -> SameCenter /\ W(r) = a[1] /\ H(r) = H(prev)
    [] op = "setHeight" -> SameCenter /\ H(r) = a[1] /\ W(r) = W(prev)
    [] op = "offset" -> SameCenter /\ (W(r) = 0 \/ (r[1] = prev[1] - a[1] /\ r[3] = prev[3] + a[1])) /\ (H(r) = 0 \/ (r[2] = prev[2] - a[2] /\ r[4] = prev[4] + a[2]))
    [] op = "scale" -> SameCenter /\ 4 * W(r) = a[1] * W(prev) /\ 4 * H(r) = a[2] * H(prev)
    [] op \in {"joinPoint", "joinRect"} -> HasRect(r, prev) /\ (op = "joinRect" => HasRect(r, Other)) /\ (op = "joinPoint" => HasPoint(r, a[1], a[2]))
    [] op = "resize" -> a[1] \in {r[1], r[2], r[3], r[4]} /\ (\E i \in 1..4 : r[i] = prev[i])
    [] op = "slide" -> W(r) = W(prev) /\ H(r) = H(prev)
    [] op = "containing" -> SameCenter /\ HasRect(r, prev) /\ (W(r) = W(prev) \/ H(r) = H(prev)) /\ a[2] * W(r) = a[1] * H(r)
    [] op = "interior" -> SameCenter /\ HasRect(prev, r) /\ (W(r) = W(prev) \/ H(r) = H(prev)) /\ a[2] * W(r) = a[1] * H(r)
    [] OTHER -> TRUE
Emit == n = Depth => PrintT("BEH " \o hist)
=============================================================================
