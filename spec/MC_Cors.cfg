CONSTANTS Export = FALSE Big = FALSE Tiny = TRUE
INIT Init
NEXT Next
INVARIANTS BrowserPreflight BrowserSimple CachesSafe
CHECK_DEADLOCK FALSE
