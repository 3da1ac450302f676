SPECIFICATION Spec
CONSTANT Family = "values"
INVARIANTS Covered Emit
CHECK_DEADLOCK FALSE
