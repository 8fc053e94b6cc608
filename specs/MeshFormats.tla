----------------------------- MODULE MeshFormats -----------------------------
(* Vertex formats: ordered lists of <<type, id>> with an index format, their layouts, and what it means for two of them to agree. Types are described only by  *)
(* how many components they have and how those are packed (as in the enumerator's documentation); sizes, offsets and strides follow from that.                *)
EXTENDS Integers, Sequences, FiniteSets
MaxAttributes == 16
\* components, bits of each packed component, and what they are packed into
Types == [ kFloat1Unpacked |-> [n |-> 1, bits |-> <<>>, into |-> "nothing"], kFloat1PackedIn1UnsignedByte |-> [n |-> 1, bits |-> <<8>>, into |-> "bytes"],
           kFloat2Unpacked |-> [n |-> 2, bits |-> <<>>, into |-> "nothing"], kFloat2PackedIn1Float |-> [n |-> 2, bits |-> <<12, 12>>, into |-> "floats"],
           kFloat2PackedIn3UnsignedBytes_XY12 |-> [n |-> 2, bits |-> <<12, 12>>, into |-> "bytes"], kFloat2PackedIn4UnsignedBytes_X12_Y20 |-> [n |-> 2, bits |-> <<12, 20>>, into |-> "bytes"],
           kFloat3Unpacked |-> [n |-> 3, bits |-> <<>>, into |-> "nothing"], kFloat3PackedIn1Float |-> [n |-> 3, bits |-> <<8, 8, 8>>, into |-> "floats"],
           kFloat3PackedIn2Floats |-> [n |-> 3, bits |-> <<16, 16, 16>>, into |-> "floats"], kFloat3PackedIn4UnsignedBytes_XYZ10 |-> [n |-> 3, bits |-> <<10, 10, 10>>, into |-> "bytes"],
           kFloat4Unpacked |-> [n |-> 4, bits |-> <<>>, into |-> "nothing"], kFloat4PackedIn1Float |-> [n |-> 4, bits |-> <<6, 6, 6, 6>>, into |-> "floats"],
           kFloat4PackedIn2Floats |-> [n |-> 4, bits |-> <<12, 12, 12, 12>>, into |-> "floats"], kFloat4PackedIn3Floats |-> [n |-> 4, bits |-> <<18, 18, 18, 18>>, into |-> "floats"] ]
TypeNames == DOMAIN Types
IdNames == {"kPosition", "kColorShiftHsl", "kOpacityShift", "kTexture", "kSideDerivative", "kSideLabel", "kForwardDerivative", "kForwardLabel", "kSurfaceUv"} \cup
           {"kCustom0", "kCustom1", "kCustom2", "kCustom3", "kCustom4", "kCustom5", "kCustom6", "kCustom7", "kCustom8", "kCustom9"}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Up(a, b) == (a + b - 1) \div b
Unpacked(type) == Types[type].into = "nothing"
UnpackedSize(type) == 4 * Types[type].n
\* a float's mantissa holds 24 bits
PackedSize(type) == LET t == Types[type] IN CASE t.into = "nothing" -> 4 * t.n [] t.into = "bytes" -> Up(Sum(t.bits), 8) [] t.into = "floats" -> 4 * Up(Sum(t.bits), 24)
\* ------------------------------------------------------------------ lists of attributes: [t |-> type, id |-> id], names not known being "?"
Distinct(as) == \A i, j \in 1 .. Len(as) : i # j => as[i].id # as[j].id
Valid(as) ==
  /\ Len(as) \in 1 .. MaxAttributes
  /\ \A i \in 1 .. Len(as) : as[i].t \in TypeNames /\ as[i].id \in IdNames
  /\ Distinct(as)
  /\ \E i \in 1 .. Len(as) : as[i].id = "kPosition" /\ Types[as[i].t].n = 2
PositionIndex(as) == CHOOSE i \in 1 .. Len(as) : as[i].id = "kPosition"
OffsetU(as, i) == Sum([k \in 1 .. i - 1 |-> UnpackedSize(as[k].t)])
OffsetP(as, i) == Sum([k \in 1 .. i - 1 |-> PackedSize(as[k].t)])
StrideU(as) == OffsetU(as, Len(as) + 1)
StrideP(as) == OffsetP(as, Len(as) + 1)
Layout(as) == [i \in 1 .. Len(as) |-> [t |-> as[i].t, id |-> as[i].id, uo |-> OffsetU(as, i), po |-> OffsetP(as, i), uw |-> UnpackedSize(as[i].t), pw |-> PackedSize(as[i].t)]]
\* what a format's accessors report
Shape(as, idx) == [attrs |-> Layout(as), pos |-> PositionIndex(as) - 1, us |-> StrideU(as), ps |-> StrideP(as), idx |-> idx, is |-> IF idx = "k16BitUnpacked16BitPacked" THEN 2 ELSE 4]
DefaultAttributes == <<[t |-> "kFloat2Unpacked", id |-> "kPosition"]>>
DefaultIndex == "k32BitUnpacked16BitPacked"
\* ------------------------------------------------------------------ removing
Has(as, id) == \E i \in 1 .. Len(as) : as[i].id = id
CanRemove(as, ids) == ids \subseteq {as[i].id : i \in 1 .. Len(as)} \ {"kPosition"}
Without(as, ids) == SelectSeq(as, LAMBDA a : a.id \notin ids)
\* ------------------------------------------------------------------ agreement
Equal(as, i, bs, j) == as = bs /\ i = j
PackedEq(as, bs) == as = bs                                  \* the index format does not matter
UnpackedEq(as, bs) == Len(as) = Len(bs) /\ \A i \in 1 .. Len(as) : as[i].id = bs[i].id /\ Types[as[i].t].n = Types[bs[i].t].n
=============================================================================
