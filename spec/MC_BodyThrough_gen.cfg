CONSTANTS MaxLayers = 3 MaxFeed = 4 Export = TRUE
INIT Init
NEXT Next
INVARIANTS SameBody OneEnd AtMostOneEnd DisconnectLast DisconnectKept NothingEarly
CHECK_DEADLOCK FALSE
