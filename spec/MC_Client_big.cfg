CONSTANTS MaxOps = 6 MaxSessions = 2 MaxQ = 4 Export = FALSE
SPECIFICATION Spec
INVARIANTS AllClausesHold InOrder Matched Answered
CHECK_DEADLOCK FALSE
