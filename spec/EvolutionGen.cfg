SPECIFICATION Spec
CONSTANT MaxScript = 2
INVARIANTS Bounded StopsAtEnd NeverUndefined OnlyKnownSteps NormalReturnIsTerminal RowsAccounted LateNeverSteps Emit
CHECK_DEADLOCK FALSE
