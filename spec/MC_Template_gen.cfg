CONSTANTS MaxOps = 3 Export = TRUE
INIT Init
NEXT Next
INVARIANTS ExportHist
CHECK_DEADLOCK FALSE
