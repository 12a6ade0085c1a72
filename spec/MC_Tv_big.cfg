SPECIFICATION Spec
CONSTANTS L = 5  K = 3
  Lams <- LamSet
  Signals <- AllSignals
INVARIANTS TypeOk InTube Optimal RunsAgree Shrinks Gen
PROPERTY Terminates
CHECK_DEADLOCK FALSE
