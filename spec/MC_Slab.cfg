INIT Init
NEXT Next
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
