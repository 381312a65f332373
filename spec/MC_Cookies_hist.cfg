CONSTANTS
 Alphabet = {"a", "=", ";", " ", "\"", "\\", "0"}
 MaxLen = 0 Steps = 3 Export = FALSE
 Names = {"a", "b"} Values = {"", "; a=1"} Paths = {"/", "/p"} Domains = {"None"}
SPECIFICATION Spec
INVARIANTS Sound ValueSurvives Parses LastShown
CHECK_DEADLOCK FALSE
