SPECIFICATION Spec
INVARIANTS RoundedNearest Fix CornersWithin Emit
CONSTANTS
 Grid = {0, 3, 5, 12}
 Points = 4
CHECK_DEADLOCK FALSE
