SPECIFICATION Spec
INVARIANTS Bounded Exact Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
