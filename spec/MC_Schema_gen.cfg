CONSTANTS MaxItems = 2 Export = TRUE
INIT Init
NEXT Next
INVARIANTS Agrees NoHead NoConvertors
CHECK_DEADLOCK FALSE
