CONSTANTS N = 2 Chunks = 2 Export = TRUE
SPECIFICATION Spec
INVARIANTS AsIfAlone BuiltOnce
CHECK_DEADLOCK FALSE
