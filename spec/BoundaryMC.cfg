CONSTANTS Pool = {101, 121, 102, 106, 1, 2}
INIT Init
NEXT Next
INVARIANT Inv
PROPERTY Grow
CHECK_DEADLOCK FALSE
