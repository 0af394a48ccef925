SPECIFICATION Spec
CONSTANTS Small = FALSE
INVARIANTS Accepted AtMostOnce NeverHeavier
PROPERTIES DisruptedForGood FirstMonotone TiltsKept
CHECK_DEADLOCK FALSE
