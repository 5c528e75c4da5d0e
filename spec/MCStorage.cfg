SPECIFICATION Spec
CONSTANTS Block = 3 MaxBatch = 7 MaxItems = 12
INVARIANTS NoJunk
PROPERTIES Refines
CHECK_DEADLOCK FALSE
