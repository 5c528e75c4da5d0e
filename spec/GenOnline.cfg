SPECIFICATION Spec
CONSTANTS Depth = 9 MaxObj = 3 Emitting = TRUE Bad = TRUE
CHECK_DEADLOCK FALSE
