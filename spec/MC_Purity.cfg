SPECIFICATION Spec
CONSTANTS D = 4
 Disciplines = {"copy", "fresh", "alias", "keep"}
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
