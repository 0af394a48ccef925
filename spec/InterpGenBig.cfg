CONSTANTS NTracks = 6000 NNear = 5000
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
