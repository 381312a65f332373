CONSTANTS MaxLayers = 4 MaxProg = 8 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Lawful AllKept Nothing Ordered
CHECK_DEADLOCK FALSE
