SPECIFICATION Spec
CONSTANTS MaxConts = 3 MaxItems = 4 Depth = 4 Batches = {1, 2} BadKinds = {1} Emitting = FALSE
OpKinds = {"new", "add", "join", "take", "bad", "export"}
INVARIANTS TypeOK KeysSound
PROPERTIES AppendOnly Independent
CHECK_DEADLOCK FALSE
