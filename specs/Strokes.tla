------------------------------- MODULE Strokes -------------------------------
(* Finished strokes as values: brush (family = <<tips, model, paint>>, colour, size, epsilon), inputs, and what the shape was  *)
(* generated from. A shape is regenerated when tips, size, epsilon or inputs change (not for paint or input model alone).      *)
EXTENDS Floats, Sequences
Ok == 0   Invalid == 3
Generated(fam, size, eps, ins) == <<"gen", fam, size, eps, ins>>
Given(n) == <<"given", n>>
SizeOk(s) == Finite(s) /\ s > 0
BrushOk(size, eps) == SizeOk(size) /\ SizeOk(eps) /\ size >= eps
Stroke(fam, color, size, eps, ins, shape) == [fam |-> fam, color |-> color, size |-> size, eps |-> eps, ins |-> ins, shape |-> shape]
Regen(k) == [k EXCEPT !.shape = Generated(k.fam, k.size, k.eps, k.ins)]
Make(fam, color, size, eps, ins) == Regen(Stroke(fam, color, size, eps, ins, <<>>))
SetBrush(k, fam, color, size, eps) ==
  LET n == [k EXCEPT !.fam = fam, !.color = color, !.size = size, !.eps = eps]
  IN IF size # k.size \/ eps # k.eps \/ fam[1] # k.fam[1] THEN Regen(n) ELSE n
SetFamily(k, fam) == LET n == [k EXCEPT !.fam = fam] IN IF fam[1] # k.fam[1] THEN Regen(n) ELSE n
SetColor(k, c) == [k EXCEPT !.color = c]
SetSizeCode(k, s) == IF s = k.size \/ BrushOk(s, k.eps) THEN Ok ELSE Invalid
SetSize(k, s) == IF s = k.size \/ SetSizeCode(k, s) # Ok THEN k ELSE Regen([k EXCEPT !.size = s])
SetEpsCode(k, s) == IF s = k.eps \/ BrushOk(k.size, s) THEN Ok ELSE Invalid
SetEps(k, s) == IF s = k.eps \/ SetEpsCode(k, s) # Ok THEN k ELSE Regen([k EXCEPT !.eps = s])
SetInputs(k, ins) == Regen([k EXCEPT !.ins = ins])
SetBoth(k, fam, color, size, eps, ins) == Make(fam, color, size, eps, ins)
==============================================================================
