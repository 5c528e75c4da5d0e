SPECIFICATION Spec
CONSTANTS MaxConts = 6 MaxItems = 16 Depth = 10 Batches = {1, 2, 4} BadKinds = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12} Emitting = TRUE
OpKinds = {"add", "take", "vectorize", "new", "join"}
CHECK_DEADLOCK FALSE
