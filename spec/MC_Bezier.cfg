INIT Init
NEXT Next
INVARIANTS Same Swapped Reversed Moved Corner Bounds Emit
CHECK_DEADLOCK FALSE
