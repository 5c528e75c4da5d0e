SPECIFICATION Spec
CONSTANTS MaxConts = 6 MaxItems = 2600 Depth = 7 Batches = {1, 400, 600, 999, 1000, 1001} BadKinds = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12} Emitting = TRUE
OpKinds = {"add", "take", "new", "join"}
CHECK_DEADLOCK FALSE
