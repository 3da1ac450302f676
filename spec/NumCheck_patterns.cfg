SPECIFICATION Spec
CONSTANT Family = "patterns"
INVARIANTS Covered Emit
CHECK_DEADLOCK FALSE
