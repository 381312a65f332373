CONSTANTS MaxScopes = 2 MaxViews = 2 MaxOps = 6 MaxVals = 2 Export = TRUE
INIT Init
NEXT Next
INVARIANTS OneState OfItsScope Apart NotTheApps
CHECK_DEADLOCK FALSE
