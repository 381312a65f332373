CONSTANTS MaxLayers = 3 MaxProg = 6 Export = FALSE
INIT Init
NEXT Next
INVARIANTS Lawful AllKept Nothing Ordered
CHECK_DEADLOCK FALSE
