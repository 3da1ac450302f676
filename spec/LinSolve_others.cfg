SPECIFICATION Spec
CONSTANTS Mode = "gen" Family = "others" Many = 500
INVARIANT Emit
CHECK_DEADLOCK FALSE
