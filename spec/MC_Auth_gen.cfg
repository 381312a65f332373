CONSTANTS Names = {"a", "b"} MaxGuards = 2 Export = TRUE
INIT Init
NEXT Next
INVARIANTS Agrees Protected NotOverdone
CHECK_DEADLOCK FALSE
