SPECIFICATION Spec
CONSTANTS M = 3
 Vals = {1, 2, 3}
 GenOn = TRUE
INVARIANTS Budget Gen
CHECK_DEADLOCK FALSE
