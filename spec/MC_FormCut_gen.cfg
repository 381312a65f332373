CONSTANTS MaxLen = 4 Export = TRUE
INIT Init
NEXT Next
INVARIANTS Same NothingLost
CHECK_DEADLOCK FALSE
