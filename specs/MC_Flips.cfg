SPECIFICATION Spec
INVARIANTS RoundedNearest Fix CornersWithin Emit
CONSTANTS
 Grid = {0, 3, 5, 8, 12, 19}
 Points = 3
CHECK_DEADLOCK FALSE
