CONSTANTS Size = 3 Export = TRUE
INIT Init
NEXT Next
INVARIANTS ParsesBack MergeExact
CHECK_DEADLOCK FALSE
