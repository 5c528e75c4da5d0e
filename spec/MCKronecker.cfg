SPECIFICATION Spec
INVARIANT QuadIdentity DetIdentity TargetTrace ScaleFree
CHECK_DEADLOCK FALSE
