CONSTANTS NTracks = 400 NNear = 400
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
