SPECIFICATION Spec
CONSTANTS Cols = 2
 MaxRow = 2
 MaxIdx = 2
 GenOn = FALSE
INVARIANTS Finished Final Gen
CHECK_DEADLOCK FALSE
