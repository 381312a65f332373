INIT Init
NEXT Next
INVARIANTS RoundTrip Accounting NoLoop MethodBlind DefaultIsLast
CHECK_DEADLOCK FALSE
