SPECIFICATION Spec
CONSTANTS NH = 1
Fams = {111, 211, 112}
Colors = {1, 2}
SizeKeys = {1, 2, 3, 4, 5, 6}
EpsKeys = {1, 2, 3, 4, 5, 6}
InKeys = {0, 1, 2}
INVARIANTS Valid Corresponds
VIEW View
CHECK_DEADLOCK FALSE
