CONSTANTS MaxOps = 5 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Same
PROPERTY Holds
CHECK_DEADLOCK FALSE
