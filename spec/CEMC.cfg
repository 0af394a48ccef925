SPECIFICATION Spec
INVARIANTS Accepted CoreInside
PROPERTIES MassNeverGrows MergedForGood StaysBare
CHECK_DEADLOCK FALSE
