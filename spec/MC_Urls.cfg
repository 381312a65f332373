CONSTANTS
 Schemes = {"", "http"}
 Users = {"None", "u", ""}
 Passes = {"None", "p:q", ""}
 Hosts = {"", "h", "[::1]"}
 Ports = {"None", "81"}
 Paths = {"", "/a", "/a:b/"}
 Queries = {"", "a=1&b=%20+"}
 Fragments = {"", "f?g"}
 Steps = 1 Export = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS RoundTrip OnlyNamed Commute InOut
CHECK_DEADLOCK FALSE
