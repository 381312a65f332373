CONSTANTS MaxOps=3 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Frozen LastFirst Layers
CHECK_DEADLOCK FALSE
