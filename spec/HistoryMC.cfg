SPECIFICATION Spec
CONSTANTS MaxOps = 3
 MaxCalls = 2
INVARIANTS Aligned FirstRowKept NoRedirectRows
PROPERTIES Immutable LastRowIsNow
CHECK_DEADLOCK FALSE
