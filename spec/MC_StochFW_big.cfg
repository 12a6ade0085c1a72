SPECIFICATION Spec
CONSTANTS D = 4
 Data = {1, 2, 3}
 Sizes = {1, 2, 3}
 Variants = {"SAG", "SAGA", "MHK", "LF"}
 Rules = {"sublinear", "DR", "user"}
 GenOn = FALSE
INVARIANTS Accepted Facts Sharp
CHECK_DEADLOCK FALSE
