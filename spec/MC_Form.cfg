CONSTANTS MaxParts = 2 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Agrees
CHECK_DEADLOCK FALSE
