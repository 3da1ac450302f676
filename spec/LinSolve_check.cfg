SPECIFICATION Spec
CONSTANTS Mode = "check" Family = "check" Many = 500
INVARIANT Emit
CHECK_DEADLOCK FALSE
