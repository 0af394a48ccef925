CONSTANTS NScripts = 1200
NRuns = 6
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
