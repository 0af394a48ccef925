SPECIFICATION TraceSpec
INVARIANT TraceDone
CHECK_DEADLOCK FALSE
