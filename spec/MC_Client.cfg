CONSTANTS MaxOps = 5 MaxSessions = 2 MaxQ = 3 Export = FALSE
SPECIFICATION Spec
INVARIANTS AllClausesHold InOrder Matched Answered
CHECK_DEADLOCK FALSE
