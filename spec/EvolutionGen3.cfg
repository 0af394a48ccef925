SPECIFICATION Spec
CONSTANT MaxScript = 3
INVARIANTS Bounded StopsAtEnd NeverUndefined OnlyKnownSteps NormalReturnIsTerminal RowsAccounted LateNeverSteps Emit
CHECK_DEADLOCK FALSE
