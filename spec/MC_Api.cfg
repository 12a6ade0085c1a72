SPECIFICATION Spec
CONSTANTS Feats = 2
 GLen = 3
 NGroups = 2
 NB = 3
 GenOn = TRUE
INVARIANTS OnlyFaults Judged ForwardIs Gen
PROPERTY Shrinking
CHECK_DEADLOCK FALSE
