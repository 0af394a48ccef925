SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
