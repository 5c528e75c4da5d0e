SPECIFICATION Spec
CONSTANTS Depth = 3 MaxObj = 2 Emitting = FALSE Bad = TRUE
INVARIANTS Schedule Uninitialised FitLaw
PROPERTIES Others ErrorsChangeNothing
CHECK_DEADLOCK FALSE
