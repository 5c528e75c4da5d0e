SPECIFICATION Spec
CONSTANTS NTrials = 3 NWorkers = 2 Alone <- Result
INVARIANTS InOrder
PROPERTIES Delivered
CHECK_DEADLOCK FALSE
