CONSTANTS MaxOps = 6 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Same
PROPERTY Holds
CHECK_DEADLOCK FALSE
