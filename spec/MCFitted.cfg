SPECIFICATION Spec
CONSTANTS MaxN = 3 Dimension = 2
INVARIANT Sound Shift Equivariant Pinv
CHECK_DEADLOCK FALSE
