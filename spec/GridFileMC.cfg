CONSTANTS Ps = {1, 2}
NG = 3
NR = 2
INIT Init
NEXT Next
INVARIANTS Same OncePerPoint LeftFold Accepted
CHECK_DEADLOCK FALSE
