SPECIFICATION Spec
CONSTANTS Mode = "gen" Family = "two" Many = 500
INVARIANT Emit
CHECK_DEADLOCK FALSE
