SPECIFICATION Spec
CONSTANTS Mode = "gen" Family = "small" Many = 500
INVARIANTS Emit Truthful Bounded Present
CHECK_DEADLOCK TRUE
