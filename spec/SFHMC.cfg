SPECIFICATION Spec
CONSTANTS
  U = 100
  K = 4
  W = 1
INVARIANTS NonNegative Complete Additive Within
CHECK_DEADLOCK FALSE
