SPECIFICATION Spec
CONSTANTS Depth = 6 Seeds = {1, 2} Kinds = {1, 2} MaxNest = 3 Emitting = FALSE
INVARIANTS Transparent
CHECK_DEADLOCK FALSE
