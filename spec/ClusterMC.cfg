SPECIFICATION Spec
CONSTANTS Mets = {"a", "b"}
          MaxTasks = 3
          MaxFail = 3
INVARIANT NoPartialMerge
INVARIANT RescueExact
INVARIANT DoneMeansMerged
PROPERTY Completes
CHECK_DEADLOCK FALSE
