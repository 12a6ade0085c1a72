SPECIFICATION Spec
CONSTANTS N = 3  K = 2  D = 2
INVARIANTS NoFalseMinimizer AtMostOne ClosedForms
CHECK_DEADLOCK FALSE
