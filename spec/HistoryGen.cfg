SPECIFICATION Spec
CONSTANTS MaxOps = 3
 MaxCalls = 2
INVARIANTS Aligned FirstRowKept NoRedirectRows Emit

CHECK_DEADLOCK FALSE
