INIT Init
NEXT Next
INVARIANTS Unit Composes Inverts Ortho DoubleCover Emit
CHECK_DEADLOCK FALSE
