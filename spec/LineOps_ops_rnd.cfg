SPECIFICATION Spec
CONSTANTS Family = "ops"
CONSTANT MaxN = 4
CONSTANT Steps = 12
INVARIANTS Commute Separate Dump
CHECK_DEADLOCK FALSE
