CONSTANTS Depth = 4 Export = FALSE
INIT Init
NEXT Next
INVARIANTS ConnectOnceFirst DisconnectOnceLast AlwaysDisconnected InOrder NothingAfterBad
CHECK_DEADLOCK FALSE
