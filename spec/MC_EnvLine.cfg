CONSTANTS MaxLen=5 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Same
CHECK_DEADLOCK FALSE
