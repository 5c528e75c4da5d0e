SPECIFICATION Spec
CONSTANTS Q1 = {1, 2, 3} Q2 = {1, 2} Q3 = {1, 2} MaxObj = 4 Depth = 10 Emitting = TRUE
FitArgs <- AllFits
OpKinds = {"set", "fit", "fail"}
CHECK_DEADLOCK FALSE
