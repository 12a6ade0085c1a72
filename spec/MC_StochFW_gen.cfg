SPECIFICATION Spec
CONSTANTS D = 3
 Data = {2, 3}
 Sizes = {1, 2}
 Variants = {"SAG", "SAGA", "MHK", "LF"}
 Rules = {"sublinear", "DR"}
 GenOn = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
