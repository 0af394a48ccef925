SPECIFICATION Spec
INVARIANTS InTime InOrder Inside SameEnd Monotone
CHECK_DEADLOCK FALSE
