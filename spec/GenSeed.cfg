SPECIFICATION Spec
CONSTANTS Depth = 16 Seeds = {1, 2, 3, 4, 5, 6} Kinds = {1, 2, 3, 4, 5, 6, 7} MaxNest = 4 Emitting = TRUE
CHECK_DEADLOCK FALSE
