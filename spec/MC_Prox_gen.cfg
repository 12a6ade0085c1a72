SPECIFICATION Spec
CONSTANTS N = 3  K = 2  D = 1
INVARIANTS ClosedForms Gen
CHECK_DEADLOCK FALSE
