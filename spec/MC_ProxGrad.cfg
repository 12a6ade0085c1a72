SPECIFICATION Spec
CONSTANTS D = 2
 Hs <- HsDef
 Cs = {2, 5, 7}
 As = {0, 2}
 Xs = {1, 6}
 Steps = {1, 2, 4}
 Accs = {TRUE, FALSE}
 GenOn = FALSE
INVARIANTS Accepted Facts Sharp Gen
CHECK_DEADLOCK FALSE
