SPECIFICATION Spec
CONSTANTS N = 5
 Epochs = 2
INVARIANTS Allowed Batch Sharp
CHECK_DEADLOCK FALSE
