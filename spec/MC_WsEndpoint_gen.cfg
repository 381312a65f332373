CONSTANTS Depth = 2 Export = TRUE
INIT Init
NEXT Next
INVARIANTS ConnectOnceFirst DisconnectOnceLast AlwaysDisconnected InOrder NothingAfterBad
CHECK_DEADLOCK FALSE
