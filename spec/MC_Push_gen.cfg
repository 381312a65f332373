CONSTANTS MaxLayers = 2 MaxProg = 6 Export = TRUE
INIT Init
NEXT Next
INVARIANTS Lawful AllKept Nothing Ordered
CHECK_DEADLOCK FALSE
