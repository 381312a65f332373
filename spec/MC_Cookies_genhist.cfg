CONSTANTS
 Alphabet = {"a", "=", ";", " ", "\"", "\\", "0"}
 MaxLen = 0 Steps = 2 Export = TRUE
 Names = {"a", "b"} Values = {"", "x", "; a=1"} Paths = {"/", "/p", "None"} Domains = {"None", "d.org"}
SPECIFICATION Spec

CHECK_DEADLOCK FALSE
