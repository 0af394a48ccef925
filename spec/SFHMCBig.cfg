SPECIFICATION Spec
CONSTANTS
  U = 100
  K = 5
  W = 2
INVARIANTS NonNegative Complete Additive Within
CHECK_DEADLOCK FALSE
