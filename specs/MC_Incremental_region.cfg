SPECIFICATION Spec
CONSTANTS MaxReal = 3
MaxWait = 1
Regions = TRUE
INVARIANTS AsIfAtOnce Covered
VIEW View
CHECK_DEADLOCK FALSE
