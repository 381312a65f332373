CONSTANTS Export = FALSE
INIT Init
NEXT Next
INVARIANTS NothingOutside OnlyThroughLinks OnlyFiles NeverTheSibling
CHECK_DEADLOCK FALSE
