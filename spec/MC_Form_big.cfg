CONSTANTS MaxParts = 3 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Agrees
CHECK_DEADLOCK FALSE
