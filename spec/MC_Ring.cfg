INIT Init
NEXT Next
INVARIANTS Canonical Loops Sign Emit
CHECK_DEADLOCK FALSE
