CONSTANTS
 Alphabet = {"a"}
 MaxLen = 0 Steps = 3 Export = FALSE
 Names = {"a", "b"} Values = {"", "x", "; a=1"} Paths = {"/", "/p", "None"} Domains = {"None", "d.org"}
SPECIFICATION Spec
INVARIANTS Sound LastShown
CHECK_DEADLOCK FALSE
