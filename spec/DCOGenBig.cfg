CONSTANTS Draws = 12
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
