SPECIFICATION Spec
CONSTANTS Q1 = {1, 2} Q2 = {1, 2} Q3 = {1, 2} MaxObj = 4 Depth = 9 Emitting = TRUE
FitArgs <- AllFits
OpKinds = {"set", "fit", "query"}
CHECK_DEADLOCK FALSE
