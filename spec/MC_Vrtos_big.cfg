SPECIFICATION Spec
CONSTANTS D = 2
 Data = {1, 2, 3, 4}
 Alphas = {0, 1}
 Lams = {0, 1}
 Xs = {1, 4}
 Warm = {0, 2}
 FixOn = TRUE
 GenOn = FALSE
INVARIANTS Accepted Untouched Sharp FixedPoints Gen
CHECK_DEADLOCK FALSE
