SPECIFICATION Spec
INVARIANTS TypeOK InsertShifts Refusals Emit
PROPERTIES Independent Local
CONSTANTS
 Depth = 4
 MaxV = 4
 MaxT = 2
CHECK_DEADLOCK FALSE
