SPECIFICATION Spec
CONSTANTS NH = 2
MaxLen = 2
Keys = {1, 2, 3}
INVARIANT Valid
PROPERTY Independent
VIEW View
CHECK_DEADLOCK FALSE
