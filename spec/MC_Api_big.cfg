SPECIFICATION Spec
CONSTANTS Feats = 3
 GLen = 2
 NGroups = 3
 NB = 4
 GenOn = TRUE
INVARIANTS OnlyFaults Judged ForwardIs Gen
PROPERTY Shrinking
CHECK_DEADLOCK FALSE
