CONSTANTS Ps = {1, 2, 3}
NG = 3
NR = 3
INIT Init
NEXT Next
INVARIANTS Same OncePerPoint LeftFold Accepted
CHECK_DEADLOCK FALSE
