CONSTANTS MaxCalls = 3 Export = FALSE
INIT Init
NEXT Next
INVARIANTS OneStart NothingAfter AnsweredBeforeRaised Outwards MostSpecific NeverStuck
  ClosedByTheAnswer
CHECK_DEADLOCK FALSE
