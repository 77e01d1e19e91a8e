INIT Init
NEXT Next
INVARIANTS Right StackConvex Emit
CHECK_DEADLOCK FALSE
