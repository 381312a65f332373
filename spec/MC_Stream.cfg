CONSTANTS MaxChunks = 3 Depth = 14 Export = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS Lawful FinalMeansAll NoFinalOnFailure CompleteOnReturn
CHECK_DEADLOCK FALSE
