SPECIFICATION Spec
CONSTANTS D = 6
 Q = 4
 Disciplines = {"copy", "reference", "late", "stop"}
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
