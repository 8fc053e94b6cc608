SPECIFICATION Spec
CONSTANTS NH = 1
MaxLen = 4
Keys = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
INVARIANT Valid
VIEW View
CHECK_DEADLOCK FALSE
