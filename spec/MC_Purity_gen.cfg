SPECIFICATION Spec
CONSTANTS D = 3
 Disciplines = {"copy"}
INVARIANTS Sound Gen
CHECK_DEADLOCK FALSE
