INIT Init
NEXT Next
INVARIANTS Covered Least SetOps Clamp Emit
CHECK_DEADLOCK FALSE
