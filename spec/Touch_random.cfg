CONSTANTS
 Family = "random"
 Many = 40
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
