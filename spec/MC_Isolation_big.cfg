CONSTANTS N = 6 Chunks = 2 Export = FALSE
SPECIFICATION Spec
INVARIANTS AsIfAlone BuiltOnce
CHECK_DEADLOCK FALSE
