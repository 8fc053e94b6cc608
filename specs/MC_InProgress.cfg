SPECIFICATION Spec
CONSTANTS MaxReal = 2
Brushes = {1}
Lists = {0, 1, 2, 23, 5}
Preds = {0, 2, 4}
Times = {9, 0, 2}
INVARIANTS RealValid PredValid NothingUnstarted NoPredictionsLeft
PROPERTIES Grows Refusals
VIEW View
CHECK_DEADLOCK FALSE
