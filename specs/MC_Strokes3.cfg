SPECIFICATION Spec
CONSTANTS NH = 2
Fams = {111, 213}
Colors = {1}
SizeKeys = {}
EpsKeys = {}
InKeys = {1}
INVARIANTS Valid Corresponds
VIEW View
CHECK_DEADLOCK FALSE
