CONSTANTS MaxTasks = 3 Export = FALSE
INIT Init
NEXT Next
INVARIANTS NoRepeat InOrder AfterResponse StaticAllRan RootAdditionsRan
CHECK_DEADLOCK FALSE
