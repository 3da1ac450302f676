SPECIFICATION Spec
CONSTANTS Mode = "model" Family = "model" Many = 500
INVARIANTS True NoMore Released
CHECK_DEADLOCK FALSE
