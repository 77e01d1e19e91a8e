SPECIFICATION Spec
INVARIANTS Permutation Sorted Pivot Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS Vals <- ValSet
