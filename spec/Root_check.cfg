SPECIFICATION Spec
CONSTANTS Mode = "check"
Family = ""
Many = 0
INVARIANTS Keeps Emit
CHECK_DEADLOCK FALSE
