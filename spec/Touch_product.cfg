CONSTANTS
 Family = "product"
 Many = 40
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
