INIT Init
NEXT Next
INVARIANTS Agree Dets Orders Emit
CHECK_DEADLOCK FALSE
