CONSTANTS MaxOps = 4 Export = TRUE
INIT Init
NEXT Next
INVARIANTS ExportHist
CHECK_DEADLOCK FALSE
