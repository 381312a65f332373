CONSTANTS
 Alphabet = {"a", "=", ";", " ", "\"", "\\", "0"}
 MaxLen = 4 Steps = 0 Export = FALSE
 Names = {"a", "b"} Values = {"", "x", "; a=1"} Paths = {"/", "/p", "None"} Domains = {"None"}
SPECIFICATION Spec
INVARIANTS Sound ValueSurvives Parses LastShown
CHECK_DEADLOCK FALSE
