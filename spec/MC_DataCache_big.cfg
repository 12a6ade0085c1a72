SPECIFICATION Spec
CONSTANTS D = 4
 Ways = {"atomic", "inplace", "first", "train", "always"}
INVARIANTS Sound Known Complete
CHECK_DEADLOCK FALSE
