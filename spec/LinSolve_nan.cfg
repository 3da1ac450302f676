SPECIFICATION Spec
CONSTANTS Mode = "gen" Family = "nan" Many = 500
INVARIANT Emit
CHECK_DEADLOCK FALSE
