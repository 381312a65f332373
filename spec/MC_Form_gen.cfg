CONSTANTS MaxParts = 2 Export = TRUE
INIT Init
NEXT Next
INVARIANTS Agrees
CHECK_DEADLOCK FALSE
