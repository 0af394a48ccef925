SPECIFICATION Spec
INVARIANTS OneEach AsAsked Forced Idempotent
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
CONSTANT MaxM = 2
