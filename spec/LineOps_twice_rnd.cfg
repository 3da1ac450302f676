SPECIFICATION Spec
CONSTANTS Family = "twice"
CONSTANT MaxN = 6
CONSTANT Steps = 4
INVARIANTS MeanOK Dump
CHECK_DEADLOCK FALSE
