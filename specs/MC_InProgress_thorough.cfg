SPECIFICATION Spec
CONSTANTS MaxReal = 3
Brushes = {1}
Lists = {0, 1, 2, 4, 5, 12, 23, 24}
Preds = {0, 2, 4, 5, 34}
Times = {9, 0, 1, 2}
INVARIANTS RealValid PredValid NothingUnstarted NoPredictionsLeft
PROPERTIES Grows Refusals
VIEW View
CHECK_DEADLOCK FALSE
