----------------------------- MODULE BrushParts -----------------------------
(* What brushes are made of: easing functions, behavior nodes and lists, tips, texture layers, coats, families, brushes;      *)
(* when each is acceptable, what it requires of a mesh, and brushes as objects with setters. Numbers are encoded floats.      *)
EXTENDS Behaviors
Two == 1073741824
QuarterTurn == 1070141403
In(x, lo, hi) == lo <= x /\ x <= hi           \* false for NaN, as its encoding exceeds every bound
Positive(x) == Finite(x) /\ x > 0
NonNegative(x) == Finite(x) /\ x >= 0
Every(s, Ok(_)) == \A i \in 1 .. Len(s) : Ok(s[i])
\* ------------------------------------------------------------------ enumerators
Sources == {"kNormalizedPressure", "kTiltInRadians", "kTiltXInRadians", "kTiltYInRadians", "kOrientationInRadians", "kOrientationAboutZeroInRadians",
  "kSpeedInMultiplesOfBrushSizePerSecond", "kVelocityXInMultiplesOfBrushSizePerSecond", "kVelocityYInMultiplesOfBrushSizePerSecond", "kDirectionInRadians",
  "kDirectionAboutZeroInRadians", "kNormalizedDirectionX", "kNormalizedDirectionY", "kDistanceTraveledInMultiplesOfBrushSize", "kTimeOfInputInSeconds",
  "kTimeOfInputInMillis", "kPredictedDistanceTraveledInMultiplesOfBrushSize", "kPredictedTimeElapsedInSeconds", "kPredictedTimeElapsedInMillis",
  "kDistanceRemainingInMultiplesOfBrushSize", "kTimeSinceInputInSeconds", "kTimeSinceInputInMillis", "kAccelerationInMultiplesOfBrushSizePerSecondSquared",
  "kAccelerationXInMultiplesOfBrushSizePerSecondSquared", "kAccelerationYInMultiplesOfBrushSizePerSecondSquared",
  "kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared", "kAccelerationLateralInMultiplesOfBrushSizePerSecondSquared", "kInputSpeedInCentimetersPerSecond",
  "kInputVelocityXInCentimetersPerSecond", "kInputVelocityYInCentimetersPerSecond", "kInputDistanceTraveledInCentimeters", "kPredictedInputDistanceTraveledInCentimeters",
  "kInputAccelerationInCentimetersPerSecondSquared", "kInputAccelerationXInCentimetersPerSecondSquared", "kInputAccelerationYInCentimetersPerSecondSquared",
  "kInputAccelerationForwardInCentimetersPerSecondSquared", "kInputAccelerationLateralInCentimetersPerSecondSquared"}
Endless == {"kTimeSinceInputInSeconds", "kTimeSinceInputInMillis"}     \* keep growing after the stroke is done: only clamping ends the animation
Targets == {"kWidthMultiplier", "kHeightMultiplier", "kSizeMultiplier", "kSlantOffsetInRadians", "kPinchOffset", "kRotationOffsetInRadians", "kCornerRoundingOffset",
  "kPositionOffsetXInMultiplesOfBrushSize", "kPositionOffsetYInMultiplesOfBrushSize", "kPositionOffsetForwardInMultiplesOfBrushSize",
  "kPositionOffsetLateralInMultiplesOfBrushSize", "kHueOffsetInRadians", "kSaturationMultiplier", "kLuminosity", "kOpacityMultiplier"}
Shifts == {"kHueOffsetInRadians", "kSaturationMultiplier", "kLuminosity"}
\* ------------------------------------------------------------------ easing functions
EasingValid(f) ==
  CASE f.k = "predefined" -> f.name \in {"kLinear", "kEase", "kEaseIn", "kEaseOut", "kEaseInOut", "kStepStart", "kStepEnd"}
    [] f.k = "bezier" -> In(f.x1, 0, One) /\ In(f.x2, 0, One) /\ Finite(f.y1) /\ Finite(f.y2)
    [] f.k = "linear" -> Every(f.pts, LAMBDA p : In(p[1], 0, One) /\ Finite(p[2])) /\ \A i \in 2 .. Len(f.pts) : f.pts[i - 1][1] <= f.pts[i][1]
    [] f.k = "steps" -> f.pos \in {"kJumpEnd", "kJumpStart", "kJumpBoth", "kJumpNone"} /\ f.n >= IF f.pos = "kJumpNone" THEN 2 ELSE 1
\* ------------------------------------------------------------------ behavior nodes and lists
Range(lo, hi) == Finite(lo) /\ Finite(hi) /\ lo # hi
NodeValid(n) ==
  CASE n.k = "S" -> n.source \in Sources /\ n.oor \in {"kClamp", "kRepeat", "kMirror"} /\ Range(n.lo, n.hi) /\ (n.source \in Endless => n.oor = "kClamp")
    [] n.k = "K" -> Finite(n.value)
    [] n.k = "F" -> n.prop \in {"kPressure", "kTilt", "kOrientation", "kTiltXAndY"}
    [] n.k = "L" -> n.tools # <<>>
    [] n.k = "D" -> n.damping \in {"kDistanceInCentimeters", "kDistanceInMultiplesOfBrushSize", "kTimeInSeconds"} /\ NonNegative(n.gap)
    [] n.k = "R" -> EasingValid(n.curve)
    [] n.k = "B" -> n.bin \in {"kProduct", "kSum"}
    [] n.k = "I" -> n.how \in {"kLerp", "kInverseLerp"}
    [] n.k = "T" -> n.target \in Targets /\ Range(n.lo, n.hi)
KindsOf(ns) == [i \in 1 .. Len(ns) |-> ns[i].k]
BehaviorValid(ns) == Every(ns, NodeValid) /\ Complete(KindsOf(ns))
\* ------------------------------------------------------------------ tips, paint, coats, families
TipValid(t) ==
  /\ NonNegative(t.sx) /\ NonNegative(t.sy) /\ (t.sx > 0 \/ t.sy > 0)
  /\ In(t.round, 0, One) /\ In(t.slant, -QuarterTurn, QuarterTurn) /\ In(t.pinch, 0, One) /\ Finite(t.rot) /\ In(t.opac, 0, Two)
  /\ NonNegative(t.gapd) /\ NonNegative(t.gapt)
  /\ Every(t.behaviors, BehaviorValid)
\* absent values are <<>>
KeyframeValid(k) ==
  /\ In(k.progress, 0, One)
  /\ (k.size # <<>> => Positive(k.size[1]) /\ Positive(k.size[2]))
  /\ (k.offset # <<>> => In(k.offset[1], 0, One) /\ In(k.offset[2], 0, One))
  /\ (k.rotation # <<>> => Finite(k.rotation[1]))
  /\ (k.opacity # <<>> => In(k.opacity[1], 0, One))
LayerValid(y) ==
  /\ y.uri = "texture"
  /\ y.mapping \in {"kTiling", "kWinding"} /\ y.origin \in {"kStrokeSpaceOrigin", "kFirstStrokeInput", "kLastStrokeInput"}
  /\ y.unit \in {"kBrushSize", "kStrokeSize", "kStrokeCoordinates"} /\ y.wrapx \in {"kRepeat", "kMirror", "kClamp"} /\ y.wrapy \in {"kRepeat", "kMirror", "kClamp"}
  /\ y.blend \in {"kModulate", "kDstIn", "kDstOut", "kSrcAtop", "kSrcIn", "kSrcOver", "kDstOver", "kSrc", "kDst", "kSrcOut", "kDstAtop", "kXor"}
  /\ Positive(y.size[1]) /\ Positive(y.size[2]) /\ Finite(y.offset[1]) /\ Finite(y.offset[2]) /\ Finite(y.rotation)
  /\ In(y.sizejit[1], 0, y.size[1]) /\ In(y.sizejit[2], 0, y.size[2]) /\ In(y.offjit[1], 0, One) /\ In(y.offjit[2], 0, One) /\ Finite(y.rotjit)
  /\ In(y.opacity, 0, One)
  /\ Every(y.keyframes, KeyframeValid)
PaintValid(p) == Every(p, LayerValid) /\ \A i \in 1 .. Len(p) : p[i].mapping = p[1].mapping
CoatValid(c) == Len(c.tips) = 1 /\ Every(c.tips, TipValid) /\ PaintValid(c.paint)
MaxCoats == 10
FamilyValid(coats, uri) == Len(coats) <= MaxCoats /\ Every(coats, CoatValid) /\ uri \in {"", "brush-family"}
\* What a mesh for this coat must have
Required(c) ==
  {"kPosition", "kSideDerivative", "kSideLabel", "kForwardDerivative", "kForwardLabel", "kOpacityShift"}
  \cup (IF \E i \in 1 .. Len(c.tips) : \E b \in 1 .. Len(c.tips[i].behaviors) : \E n \in 1 .. Len(c.tips[i].behaviors[b]) :
             c.tips[i].behaviors[b][n].k = "T" /\ c.tips[i].behaviors[b][n].target \in Shifts THEN {"kColorShiftHsl"} ELSE {})
  \cup (IF \E i \in 1 .. Len(c.paint) : c.paint[i].mapping = "kWinding" THEN {"kSurfaceUv"} ELSE {})
\* ------------------------------------------------------------------ brushes as objects
\* A brush is [family, color, size, eps]; family and color are opaque names.
BrushValid(size, eps) == Positive(size) /\ Positive(eps) /\ size >= eps
SetSizeOK(b, x) == BrushValid(x, b.eps)
SetEpsOK(b, x) == BrushValid(b.size, x)
=============================================================================
