SPECIFICATION Spec
CONSTANTS D = 2
 Data = {1, 2, 3, 4}
 Alphas = {0, 1}
 Lams = {0, 1}
 Xs = {1, 4}
 Methods = {"saga", "svrg"}
 GenOn = FALSE
INVARIANTS Accepted Facts Sharp Gen
CHECK_DEADLOCK FALSE
