CONSTANTS
 Alphabet = {"a", "=", ";", " ", "\"", "\\", "0"}
 MaxLen = 4 Steps = 0 Export = TRUE
 Names = {"a", "b"} Values = {"", "x", "; a=1"} Paths = {"/", "/p", "None"} Domains = {"None"}
SPECIFICATION Spec

CHECK_DEADLOCK FALSE
