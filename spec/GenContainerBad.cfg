SPECIFICATION Spec
CONSTANTS MaxConts = 6 MaxItems = 20 Depth = 12 Batches = {1, 2, 4} BadKinds = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12} Emitting = TRUE
OpKinds = {"new", "add", "bad", "take"}
CHECK_DEADLOCK FALSE
