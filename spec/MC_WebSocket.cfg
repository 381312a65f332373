CONSTANTS
  Depth = 6
  Export = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANTS Grammar NoAskAfterDisconnect Agree
CHECK_DEADLOCK FALSE
