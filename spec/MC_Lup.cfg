INIT Init
NEXT Next
INVARIANTS Factors Bounded Detects Solves Emit
CHECK_DEADLOCK FALSE
