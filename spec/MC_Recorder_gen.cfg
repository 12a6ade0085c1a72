SPECIFICATION Spec
CONSTANTS D = 5
 Q = 4
 Disciplines = {"copy"}
INVARIANTS Sound Gen
CHECK_DEADLOCK FALSE
