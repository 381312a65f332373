CONSTANTS Depth = 4 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Agree OneEntry LowerNames
CHECK_DEADLOCK FALSE
