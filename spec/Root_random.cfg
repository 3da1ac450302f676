SPECIFICATION Spec
CONSTANTS Mode = "gen"
Family = "random"
Many = 100
INVARIANTS Emit
CHECK_DEADLOCK FALSE
