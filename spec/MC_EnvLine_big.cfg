CONSTANTS MaxLen=7 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Same
CHECK_DEADLOCK FALSE
