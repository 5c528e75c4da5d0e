SPECIFICATION Spec
INVARIANTS ScalarOK DivOK SqrtOK LnOK ExpOK LnExpOK PiOK NaNOK CplxOK MatOK
CHECK_DEADLOCK FALSE
