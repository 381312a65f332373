CONSTANTS Depth = 0 Export = TRUE
INIT Init
NEXT Next
INVARIANTS OpsLawful LengthTruthful TypeKept CharsetOnce AppOrder
CHECK_DEADLOCK FALSE
