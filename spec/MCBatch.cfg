SPECIFICATION Spec
CONSTANTS NTrials = 4 NWorkers = 3 Alone <- Result
INVARIANTS InOrder NoneTwice
PROPERTIES EstimatorUntouched
CHECK_DEADLOCK FALSE
