SPECIFICATION Spec
CONSTANTS Mode = "gen" Family = "random" Many = 500
INVARIANT Emit
CHECK_DEADLOCK FALSE
