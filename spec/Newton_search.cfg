SPECIFICATION Spec
CONSTANTS Mode = "search" Family = "search" Many = 500
INVARIANT Emit
CHECK_DEADLOCK FALSE
