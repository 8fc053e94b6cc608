INIT Init
NEXT Next
INVARIANTS Gapless Removal Named Agreement Emit
CONSTANTS
 N = 3
 Ts = {"kFloat2Unpacked", "kFloat2PackedIn3UnsignedBytes_XY12", "kFloat3PackedIn2Floats", "?"}
 Ids = {"kPosition", "kTexture", "kCustom9", "?"}
CHECK_DEADLOCK FALSE
