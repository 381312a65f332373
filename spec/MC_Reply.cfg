CONSTANTS Depth = 2 Export = FALSE
INIT Init
NEXT Next
INVARIANTS OpsLawful LengthTruthful TypeKept CharsetOnce AppOrder
CHECK_DEADLOCK FALSE
