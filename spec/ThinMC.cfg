CONSTANTS N = 4
V = {0, 1, 3, 99}
INIT Init
NEXT Next
INVARIANTS Sound TwoEnds
CHECK_DEADLOCK FALSE
