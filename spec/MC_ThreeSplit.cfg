SPECIFICATION Spec
CONSTANTS D = 5
 Cs = {1, 7, 12}
 As = {0, 1}
 Xs = {1, 8}
 Steps = {1, 2}
 GenOn = TRUE
INVARIANTS Accepted Facts Sharp Gen
CHECK_DEADLOCK FALSE
