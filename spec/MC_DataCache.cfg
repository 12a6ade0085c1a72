SPECIFICATION Spec
CONSTANTS D = 3
 Ways = {"atomic", "inplace", "first", "train", "always"}
INVARIANTS Sound Known Complete
CHECK_DEADLOCK FALSE
