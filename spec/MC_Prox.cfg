SPECIFICATION Spec
CONSTANTS N = 3  K = 1  D = 2
INVARIANTS NoFalseMinimizer AtMostOne ClosedForms
CHECK_DEADLOCK FALSE
