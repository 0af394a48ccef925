SPECIFICATION Spec
CONSTANTS Small = TRUE
INVARIANTS Accepted AtMostOnce NeverHeavier
PROPERTIES DisruptedForGood FirstMonotone TiltsKept
CHECK_DEADLOCK FALSE
