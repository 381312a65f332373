CONSTANTS MaxOps = 4 MaxSessions = 1 MaxQ = 3 Export = TRUE
SPECIFICATION Spec
INVARIANTS AllClausesHold InOrder Matched Answered
CHECK_DEADLOCK FALSE
