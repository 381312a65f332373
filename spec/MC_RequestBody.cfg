CONSTANTS Depth = 7 Export = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANTS NeverShort InOrderOnce CacheIsWhole
CHECK_DEADLOCK FALSE
