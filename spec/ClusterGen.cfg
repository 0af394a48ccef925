SPECIFICATION Spec
CONSTANTS MaxTasks = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
