INIT Init
NEXT Next
INVARIANTS Answered HeadLikeGet HeadFallsBack NeverInternal RefusalTruthful Export
CHECK_DEADLOCK FALSE
