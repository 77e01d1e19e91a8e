SPECIFICATION Spec
INVARIANTS One Closed Sides Single Emit
PROPERTY Mono
CHECK_DEADLOCK FALSE
