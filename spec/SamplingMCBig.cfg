SPECIFICATION Spec
CONSTANTS
  MaxRows = 12
  MaxNum = 40
  MaxIdx = 50
  MaskAlias = FALSE
INVARIANTS Cyclic MassKept FractionMonotone
PROPERTY Ends
CHECK_DEADLOCK FALSE
