CONSTANTS NScripts = 4000
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
