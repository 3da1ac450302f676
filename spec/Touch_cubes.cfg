CONSTANTS
 Family = "cubes"
 Many = 40
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
