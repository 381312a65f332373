CONSTANTS Reqs = 2 Workers = 2 Full = FALSE Export = TRUE
SPECIFICATION Spec
INVARIANTS LoopFree NoWait
CHECK_DEADLOCK FALSE
