CONSTANTS Size = 4 Export = FALSE
INIT Init
NEXT Next
INVARIANTS ParsesBack MergeExact
CHECK_DEADLOCK FALSE
