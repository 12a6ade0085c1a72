SPECIFICATION Spec
CONSTANTS D = 2
 Data = {2, 4}
 Alphas = {1}
 Lams = {1}
 Xs = {4}
 Warm = {0}
 FixOn = FALSE
 GenOn = TRUE
INVARIANTS Accepted Untouched Gen
CHECK_DEADLOCK FALSE
