SPECIFICATION Spec
CONSTANT NPts = 4
CONSTANTS F <- MCF Change <- MCChange AtMost <- MCAtMost
INVARIANT FirstStop Result LastError WarnAtCap NeverPastCap
CHECK_DEADLOCK FALSE
