SPECIFICATION Spec
INVARIANTS RoundedNearest Fix CornersWithin
CONSTANTS
 Grid = {0, 1, 3, 4, 5, 7, 8, 12, 13, 19, 20}
 Points = 3
CHECK_DEADLOCK FALSE
