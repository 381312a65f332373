CONSTANTS MaxTasks = 2 Export = TRUE
INIT Init
NEXT Next
INVARIANTS NoRepeat InOrder AfterResponse StaticAllRan RootAdditionsRan
CHECK_DEADLOCK FALSE
