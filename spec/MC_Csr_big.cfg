SPECIFICATION Spec
CONSTANTS Cols = 3
 MaxRow = 3
 MaxIdx = 2
 GenOn = FALSE
INVARIANTS Finished Final Gen
CHECK_DEADLOCK FALSE
