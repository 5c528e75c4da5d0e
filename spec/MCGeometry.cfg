SPECIFICATION Spec
INVARIANTS OnManifold Back AffineInvariant ExpEquivariant SecondOrder RetrPositive GradRepresents HessClosed SProjOK KronGradient
CONSTRAINT Depth3
CHECK_DEADLOCK FALSE
