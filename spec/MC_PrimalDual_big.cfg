SPECIFICATION Spec
CONSTANTS D = 4
 Cs = {1, 7, 12}
 As = {0, 1}
 Xs = {1, 8}
 Modes = {TRUE, FALSE}
 GenOn = TRUE
INVARIANTS Accepted Facts Sharp Gen
CHECK_DEADLOCK FALSE
