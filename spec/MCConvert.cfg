SPECIFICATION Spec
CONSTANT MaxOps = 2
INVARIANT RoundTrip Additive Transposes Positive
PROPERTY Grows
CHECK_DEADLOCK FALSE
