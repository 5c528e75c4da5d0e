INIT Init
NEXT Next
CONSTANTS F <- WeightedScatter Change <- RelChange AtMost <- RLeq
CHECK_DEADLOCK FALSE
