CONSTANTS NPairs = 6000 NTries = 6000
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
