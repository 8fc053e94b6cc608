SPECIFICATION Spec
CONSTANTS MaxReal = 4
MaxWait = 1
Regions = FALSE
INVARIANTS AsIfAtOnce Covered
VIEW View
CHECK_DEADLOCK FALSE
