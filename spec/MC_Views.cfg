CONSTANTS MaxScopes = 3 MaxViews = 3 MaxOps = 7 MaxVals = 2 Export = FALSE
INIT Init
NEXT Next
VIEW NoHist
INVARIANTS OneState OfItsScope Apart NotTheApps
CHECK_DEADLOCK FALSE
