CONSTANTS MaxReqs = 2 Times = {1,3} Ages = {0,2} Export = TRUE
INIT Init
NEXT Next
INVARIANTS Agrees Unforgeable Persistent
CHECK_DEADLOCK FALSE
