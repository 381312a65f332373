CONSTANTS MaxLayers = 3 MaxSteps = 6 Export = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS NeverFaked WellFormed NothingLost ErrorsSurface TransparentStack
PROPERTIES GrowsAlways
CHECK_DEADLOCK FALSE
