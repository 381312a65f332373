CONSTANTS
 Alphabet = {"a", "=", ";", " ", "\"", "\\", "0"}
 MaxLen = 0 Steps = 3 Export = TRUE
 Names = {"a", "b"} Values = {"", "; a=1"} Paths = {"/", "/p", "None"} Domains = {"None"}
SPECIFICATION Spec

CHECK_DEADLOCK FALSE
