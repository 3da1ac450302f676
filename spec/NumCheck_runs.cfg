SPECIFICATION Spec
CONSTANT Family = "runs"
INVARIANTS Covered Emit
CHECK_DEADLOCK FALSE
