SPECIFICATION Spec
INVARIANTS SameAsReal NormalLimit Integrates
