INIT Init
NEXT Next
INVARIANTS Right Same Emit
CHECK_DEADLOCK FALSE
