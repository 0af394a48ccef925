SPECIFICATION Spec
CONSTANTS MaxOps = 1
 MaxCalls = 4
INVARIANTS Aligned FirstRowKept NoRedirectRows Emit

CHECK_DEADLOCK FALSE
