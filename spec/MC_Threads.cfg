CONSTANTS Reqs = 2 Workers = 1 Full = TRUE Export = FALSE
SPECIFICATION Spec
INVARIANTS LoopFree NoWait
PROPERTY Finishes
CHECK_DEADLOCK FALSE
