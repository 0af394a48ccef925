SPECIFICATION Spec
INVARIANTS OwnModels NoExtrapolation WithinNeighbours TracksStartAtZero SameLengths MissingOnlyAtEdges ClassesInOrder NearestUsable
CHECK_DEADLOCK FALSE
