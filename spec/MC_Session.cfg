CONSTANTS MaxReqs = 3 Times = {1,3} Ages = {0,2} Export = FALSE
INIT Init
NEXT Next
INVARIANTS Agrees Unforgeable Persistent
CHECK_DEADLOCK FALSE
