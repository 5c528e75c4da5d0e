SPECIFICATION Spec
CONSTANTS Q1 = {1, 2, 3} Q2 = {1} Q3 = {1, 2} MaxObj = 2 Depth = 4 Emitting = FALSE
FitArgs <- FewFits
OpKinds = {"set", "fit", "fail", "query", "copy"}
INVARIANT HistoryFree NeverInvalid
PROPERTY Independent QuietCalls
CHECK_DEADLOCK FALSE
