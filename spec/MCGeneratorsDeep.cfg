SPECIFICATION Spec
CONSTANTS Depth = 3 Dims = {1, 2} Counts = {1, 2} Emitting = FALSE
INVARIANTS Fresh
CHECK_DEADLOCK FALSE
