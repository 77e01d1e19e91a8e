INIT Init
NEXT Next
INVARIANTS Minimal
CHECK_DEADLOCK FALSE
