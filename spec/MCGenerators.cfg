SPECIFICATION Spec
CONSTANTS Depth = 2 Dims = {1, 2} Counts = {1, 2} Emitting = FALSE
INVARIANTS Fresh
CHECK_DEADLOCK FALSE
