CONSTANTS MaxLen = 8 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Same NothingLost
CHECK_DEADLOCK FALSE
