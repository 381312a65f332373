CONSTANTS Depth = 3 Export = TRUE
INIT Init
NEXT Next
INVARIANTS NoBypass OneRedirect SecurePasses NotTheBareDomain
CHECK_DEADLOCK FALSE
