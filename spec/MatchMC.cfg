CONSTANTS Ds = {1, 4, 20, 50, 90, 200} Soft = 10 Hard = 100
SPECIFICATION Spec
INVARIANTS Accepted Rejected OwnLibrary OtherIsLast Enough Whole Roles
PROPERTIES Improves Ends
CHECK_DEADLOCK FALSE
