SPECIFICATION Spec
CONSTANTS Depth = 14 Dims = {1, 2, 3, 4, 5, 8} Counts = {1, 2, 3, 7, 120} Emitting = TRUE
CHECK_DEADLOCK FALSE
