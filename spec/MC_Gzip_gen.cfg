CONSTANTS Msgs = 3 Export = TRUE
INIT Init
NEXT Next
INVARIANTS OneStart NeverUnasked NeverTwice SmallStaysPlain Truthful LengthTrue CachesSafe
CHECK_DEADLOCK FALSE
