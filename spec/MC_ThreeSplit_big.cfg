SPECIFICATION Spec
CONSTANTS D = 10
 Cs = {1, 5, 6, 7, 9, 12}
 As = {0, 1, 3}
 Xs = {1, 6, 8}
 Steps = {1, 2}
 GenOn = TRUE
INVARIANTS Accepted Facts Sharp Gen
CHECK_DEADLOCK FALSE
