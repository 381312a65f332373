CONSTANTS MaxReqs = 4 Times = {1,3} Ages = {2} Export = FALSE
INIT Init
NEXT Next
INVARIANTS Agrees Unforgeable Persistent
CHECK_DEADLOCK FALSE
