CONSTANTS NScripts = 700 Draws = 1
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
