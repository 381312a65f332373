CONSTANTS MaxChunks = 3 Export = TRUE
SPECIFICATION Spec
INVARIANTS AllClausesHold Faithful OverMeansAll
CHECK_DEADLOCK FALSE
