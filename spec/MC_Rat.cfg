INIT Init
NEXT Next
INVARIANT Grows
CHECK_DEADLOCK FALSE
