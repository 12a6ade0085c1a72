SPECIFICATION Spec
CONSTANTS D = 3  Rules = {"user"}  Pair = TRUE
INVARIANTS Feasible Decomposition Accepted GapNonNegative Sharp Gen
CHECK_DEADLOCK FALSE
