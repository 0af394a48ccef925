SPECIFICATION Spec
CONSTANT Kind = "Q01"
INVARIANT Emit
CHECK_DEADLOCK FALSE
