CONSTANTS MaxCalls = 3 Export = TRUE
INIT Init
NEXT Next
INVARIANTS OneStart NothingAfter AnsweredBeforeRaised Outwards MostSpecific 
CHECK_DEADLOCK FALSE
