CONSTANTS MaxChunks = 12 Export = FALSE
SPECIFICATION Spec
INVARIANTS AllClausesHold Faithful OverMeansAll
PROPERTY EndsSometime
CHECK_DEADLOCK FALSE
