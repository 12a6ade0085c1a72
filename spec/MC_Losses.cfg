SPECIFICATION Spec
CONSTANTS K = 30
INVARIANTS Convex DerivativeOfValue Curvature NonNegative Zeroed
CHECK_DEADLOCK FALSE
