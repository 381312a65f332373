CONSTANTS MaxSteps = 2 MaxCycles = 2 MaxReqs = 2 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Exclusive OnceEach Reported Stuck
CHECK_DEADLOCK FALSE
