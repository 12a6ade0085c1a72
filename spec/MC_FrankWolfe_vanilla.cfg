SPECIFICATION Spec
CONSTANTS D = 4  Rules = {"user", "DR", "sublinear"}  Pair = FALSE
INVARIANTS Feasible Decomposition Accepted GapNonNegative Sharp
CHECK_DEADLOCK FALSE
