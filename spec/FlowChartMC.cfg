SPECIFICATION Spec
INVARIANTS TypeOK Symmetric TimeUpEnds NothingLeftEnds CollapseHandled CompactCompanion DcoOnlyDCO SNOnlyCollapse UndefinedHasNoStep DetachedTotal CETotal
CHECK_DEADLOCK FALSE
