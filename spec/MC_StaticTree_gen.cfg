CONSTANTS Export = TRUE
INIT Init
NEXT Stay
INVARIANTS NothingOutside OnlyThroughLinks OnlyFiles NeverTheSibling
CHECK_DEADLOCK FALSE
