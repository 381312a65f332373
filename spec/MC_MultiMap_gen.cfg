CONSTANTS Depth = 3 Export = TRUE
INIT Init
NEXT Next
INVARIANTS Agree OneEntry LowerNames
CHECK_DEADLOCK FALSE
