SPECIFICATION Spec
CONSTANT NPts = 2
CONSTANTS F <- MCF Change <- MCChange AtMost <- MCAtMost
PROPERTY Terminates
CHECK_DEADLOCK FALSE
