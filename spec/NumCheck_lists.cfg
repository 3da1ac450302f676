SPECIFICATION Spec
CONSTANT Family = "lists"
INVARIANTS Covered Emit
CHECK_DEADLOCK FALSE
