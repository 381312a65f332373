CONSTANTS MaxOps=2 Export = TRUE
INIT Init
NEXT Next
INVARIANTS Layers
CHECK_DEADLOCK FALSE
