CONSTANTS MaxLen=4 Export = TRUE
INIT Init
NEXT Next
INVARIANTS Same
CHECK_DEADLOCK FALSE
