SPECIFICATION Spec
CONSTANTS D = 2
 Data = {2, 4}
 Alphas = {1}
 Lams = {1}
 Xs = {4}
 Methods = {"saga", "svrg"}
 GenOn = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
