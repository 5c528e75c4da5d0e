SPECIFICATION Spec
CONSTANTS Depth = 4 MaxObj = 3 Emitting = FALSE Bad = TRUE
INVARIANTS Schedule Uninitialised FitLaw
PROPERTIES Others ErrorsChangeNothing
CHECK_DEADLOCK FALSE
