CONSTANTS Msgs = 4 Export = FALSE
INIT Init
NEXT Next
INVARIANTS OneStart NeverUnasked NeverTwice SmallStaysPlain Truthful LengthTrue CachesSafe
CHECK_DEADLOCK FALSE
