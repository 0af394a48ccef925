CONSTANTS Radii = {300, 700} Grow = {0, 7, 50, 110, 190} Ends = {2, 4, 6} Maxs = {3, 8}
SPECIFICATION Spec
INVARIANTS SameTick SameWhat Defined Circular Mirror RowsSane
PROPERTY Terminates
CHECK_DEADLOCK FALSE
