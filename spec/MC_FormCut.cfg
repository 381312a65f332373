CONSTANTS MaxLen = 6 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Same NothingLost
CHECK_DEADLOCK FALSE
