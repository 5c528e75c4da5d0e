SPECIFICATION Spec
INVARIANTS Law Gradient ScaleFlat UnitOK
CONSTRAINT Depth
CHECK_DEADLOCK FALSE
