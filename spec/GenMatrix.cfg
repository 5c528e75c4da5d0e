SPECIFICATION Spec
CONSTANTS Depth = 4 Powers <- PowersDef Emitting = TRUE
CHECK_DEADLOCK FALSE
