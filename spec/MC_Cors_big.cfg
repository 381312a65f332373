CONSTANTS Export = FALSE Big = FALSE Tiny = FALSE
INIT Init
NEXT Next
INVARIANTS BrowserPreflight BrowserSimple CachesSafe
CHECK_DEADLOCK FALSE
