SPECIFICATION Spec
CONSTANT Kind = "Q02"
INVARIANT Emit
CHECK_DEADLOCK FALSE
