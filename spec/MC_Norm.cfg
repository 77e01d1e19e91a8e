SPECIFICATION Spec
INVARIANTS InRange Congruent
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "once"
