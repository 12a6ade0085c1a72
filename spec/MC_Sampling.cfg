SPECIFICATION Spec
CONSTANTS N = 4
 Epochs = 2
INVARIANTS Allowed Batch Sharp
CHECK_DEADLOCK FALSE
