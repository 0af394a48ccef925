SPECIFICATION Spec
CONSTANTS
  MaxRows = 6
  MaxNum = 12
  MaxIdx = 14
  MaskAlias = FALSE
INVARIANTS Cyclic MassKept FractionMonotone
PROPERTY Ends
CHECK_DEADLOCK FALSE
