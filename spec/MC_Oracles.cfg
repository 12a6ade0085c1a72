SPECIFICATION Spec
CONSTANTS N = 2  K = 2
INVARIANTS ActiveOk L1Optimal SimplexOptimal Gaps StepFeasible Judged JudgeIsSharp Gen
CHECK_DEADLOCK FALSE
