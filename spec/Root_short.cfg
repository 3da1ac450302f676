SPECIFICATION Spec
CONSTANTS Mode = "gen"
Family = "short"
Many = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
