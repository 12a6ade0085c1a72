SPECIFICATION Spec
CONSTANTS D = 4  Rules = {"user", "DR", "sublinear"}  Pair = TRUE
INVARIANTS Feasible Decomposition Accepted GapNonNegative Sharp
CHECK_DEADLOCK FALSE
