SPECIFICATION Spec
CONSTANT MaxOps = 5
INVARIANTS Current DensityOfCurrentWeights DensityOnlyThere OnePerName KeysFaithful Empty
CHECK_DEADLOCK FALSE
