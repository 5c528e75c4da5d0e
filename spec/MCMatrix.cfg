SPECIFICATION Spec
CONSTANTS Depth = 2 Powers <- PowersDef Emitting = FALSE
INVARIANTS FunctionLaws RouteIndependent
VIEW Seen
CHECK_DEADLOCK FALSE
