SPECIFICATION Spec
CONSTANTS D = 3
 Ways = {"atomic"}
INVARIANTS Sound Gen
CHECK_DEADLOCK FALSE
