CONSTANTS
 Family = "small"
 Many = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
