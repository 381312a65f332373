CONSTANTS MaxOps = 4 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Agrees Own ProcessorsWin
CHECK_DEADLOCK FALSE
