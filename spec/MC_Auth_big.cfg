CONSTANTS Names = {"a", "b", "c"} MaxGuards = 2 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Agrees Protected NotOverdone
CHECK_DEADLOCK FALSE
