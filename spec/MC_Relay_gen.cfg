CONSTANTS MaxLayers = 2 MaxSteps = 5 Export = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANTS NeverFaked WellFormed NothingLost ErrorsSurface TransparentStack
PROPERTIES GrowsAlways
CHECK_DEADLOCK FALSE
