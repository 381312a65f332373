CONSTANTS Reqs = 3 Workers = 2 Full = FALSE Export = FALSE
SPECIFICATION Spec
INVARIANTS LoopFree NoWait
PROPERTY Finishes
CHECK_DEADLOCK FALSE
