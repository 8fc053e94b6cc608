SPECIFICATION Spec
CONSTANTS NH = 2
Fams = {111, 213}
Colors = {1}
SizeKeys = {2}
EpsKeys = {2}
InKeys = {1}
INVARIANTS Valid Corresponds
VIEW View
CHECK_DEADLOCK FALSE
