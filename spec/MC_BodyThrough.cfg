CONSTANTS MaxLayers = 3 MaxFeed = 5 Export = FALSE
INIT Init
NEXT Next
INVARIANTS SameBody OneEnd AtMostOneEnd DisconnectLast DisconnectKept NothingEarly
CHECK_DEADLOCK FALSE
