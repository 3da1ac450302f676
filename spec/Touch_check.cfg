CONSTANTS
 Family = "check"
 Many = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
