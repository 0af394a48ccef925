CONSTANTS NScripts = 6000
NRuns = 6
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
