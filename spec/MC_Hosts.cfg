CONSTANTS Depth = 4 Export = FALSE
INIT Init
NEXT Next
INVARIANTS NoBypass OneRedirect SecurePasses NotTheBareDomain
CHECK_DEADLOCK FALSE
