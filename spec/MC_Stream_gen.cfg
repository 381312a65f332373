CONSTANTS MaxChunks = 2 Depth = 9 Export = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANTS Lawful FinalMeansAll NoFinalOnFailure CompleteOnReturn
CHECK_DEADLOCK FALSE
