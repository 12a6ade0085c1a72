SPECIFICATION Spec
CONSTANTS M = 3
 Vals = {1, 2, 3}
 GenOn = FALSE
INVARIANTS Budget FirstHit StopAtOnce Exhausts Prefix SameAsRun Sharp
CHECK_DEADLOCK FALSE
