SPECIFICATION Spec
CONSTANTS D = 4  Rules = {"user"}  Pair = TRUE
INVARIANTS Feasible Decomposition Accepted GapNonNegative Sharp Gen
CHECK_DEADLOCK FALSE
