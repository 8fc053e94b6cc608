SPECIFICATION Spec
CONSTANTS NH = 3
MaxLen = 2
Keys = {1, 2, 3}
INVARIANT Valid
PROPERTY Independent
VIEW View
CHECK_DEADLOCK FALSE
