CONSTANTS MaxSteps = 2 MaxCycles = 1 MaxReqs = 2 Export = TRUE
INIT Init
NEXT Next
INVARIANTS Exclusive OnceEach Reported Stuck
CHECK_DEADLOCK FALSE
