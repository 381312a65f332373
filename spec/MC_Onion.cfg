CONSTANTS Depth = 2 Export = TRUE
INIT Init
NEXT Next
INVARIANTS DeclaredOrder UnwindsInReverse ResponsePasses EndpointOnce AllRunUnlessStopped AddedOutermost
CHECK_DEADLOCK FALSE
