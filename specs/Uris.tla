-------------------------------- MODULE Uris --------------------------------
(* Ink asset URIs: [<scheme>:][//<reg-name>]/<asset-type>:<asset-name>[:<revision>] over sequences of character codes.     *)
EXTENDS Integers, Sequences
Slash == 47   Colon == 58
InkScheme == <<105, 110, 107>>                                       \* ink
BrushFamily == <<98, 114, 117, 115, 104, 45, 102, 97, 109, 105, 108, 121>>   \* brush-family
Texture == <<116, 101, 120, 116, 117, 114, 101>>                     \* texture
IsNameChar(c) == (97 <= c /\ c <= 122) \/ c = 45
IsDigit(c) == 48 <= c /\ c <= 57
Lower(c) == IF 65 <= c /\ c <= 90 THEN c + 32 ELSE c
At(s, i) == IF 1 <= i /\ i <= Len(s) THEN s[i] ELSE 0 - 1
\* End (exclusive) of the longest run of characters from i on
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF IsNameChar(At(s, i)) THEN NameEnd(s, i + 1) ELSE i
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF IsDigit(At(s, i)) THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE Number(_)
Number(d) == IF d = <<>> THEN 0 ELSE 10 * Number(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
None == [ok |-> FALSE]
Default == [ok |-> TRUE, reg |-> <<>>, type |-> "none", name |-> <<>>, rev |-> 0]
\* The parts of a text, or None. Names contain no delimiter, so the split below is the only possible one.
Parse(s) ==
  IF s = <<>> THEN Default ELSE
  LET i0 == IF Len(s) >= 4 /\ [k \in 1..3 |-> Lower(s[k])] = InkScheme /\ s[4] = Colon THEN 5 ELSE 1
      hasReg == At(s, i0) = Slash /\ At(s, i0 + 1) = Slash
      i1 == IF hasReg THEN NameEnd(s, i0 + 2) ELSE i0
      reg == IF hasReg THEN SubSeq(s, i0 + 2, i1 - 1) ELSE InkScheme
      i2 == NameEnd(s, i1 + 1)
      type == SubSeq(s, i1 + 1, i2 - 1)
      i3 == NameEnd(s, i2 + 1)
      name == SubSeq(s, i2 + 1, i3 - 1)
      hasRev == At(s, i3) = Colon
      i4 == IF hasRev THEN DigitsEnd(s, i3 + 1) ELSE i3
      digits == SubSeq(s, i3 + 1, i4 - 1)
  IN IF /\ reg # <<>>
        /\ At(s, i1) = Slash /\ type \in {BrushFamily, Texture}
        /\ At(s, i2) = Colon /\ name # <<>>
        /\ hasRev => (Len(digits) \in 1..9 /\ digits[1] # 48)
        /\ i4 = Len(s) + 1
     THEN [ok |-> TRUE, reg |-> reg, type |-> IF type = Texture THEN "texture" ELSE "brush-family", name |-> name, rev |-> IF hasRev THEN Number(digits) ELSE 1]
     ELSE None
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
Canonical(u) == IF u.type = "none" THEN <<>> ELSE
  (IF u.reg = InkScheme THEN <<>> ELSE <<Slash, Slash>> \o u.reg)
  \o <<Slash>> \o (IF u.type = "texture" THEN Texture ELSE BrushFamily) \o <<Colon>> \o u.name
  \o (IF u.rev = 1 THEN <<>> ELSE <<Colon>> \o Decimal(u.rev))
=============================================================================
