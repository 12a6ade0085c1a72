SPECIFICATION Spec
CONSTANTS L = 4  K = 2
  Lams <- LamSet
  Signals <- AllSignals
INVARIANTS TypeOk InTube Optimal RunsAgree Shrinks Gen
PROPERTY Terminates
CHECK_DEADLOCK FALSE
