INIT Init
NEXT Next
INVARIANTS Four Simple Closed
CHECK_DEADLOCK FALSE
