CONSTANTS Masses = {1, 2, 3, 5} Starts = {5, 40, 200, 777} Touch = {1, 5, 30} Maxs = {0, 1, 7, 40}
SPECIFICATION Spec
INVARIANTS Agrees Mirror Heavier
PROPERTIES Shrinks Ends
CHECK_DEADLOCK FALSE
