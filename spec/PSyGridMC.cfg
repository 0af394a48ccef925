CONSTANTS NB = 2
NH = 2
MaxV = 2
INIT Init
NEXT Next
INVARIANTS Agrees DroppedOut Kept Aligned Forward RloFirst Depleted
CHECK_DEADLOCK FALSE
