SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxSize = 3
          MaxDump = 3
INVARIANTS Partition Safe FinalExact MemBound
PROPERTY Finishes
CHECK_DEADLOCK FALSE
