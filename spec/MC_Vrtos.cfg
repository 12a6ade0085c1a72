SPECIFICATION Spec
CONSTANTS D = 1
 Data = {1, 2, 3, 4}
 Alphas = {0, 1}
 Lams = {0, 1}
 Xs = {1, 4}
 Warm = {0}
 FixOn = TRUE
 GenOn = FALSE
INVARIANTS Accepted Untouched Sharp FixedPoints Gen
CHECK_DEADLOCK FALSE
