CONSTANTS MaxItems = 2 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Agrees NoHead NoConvertors
CHECK_DEADLOCK FALSE
