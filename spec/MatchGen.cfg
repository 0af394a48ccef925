CONSTANTS NPairs = 700 NTries = 700
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
