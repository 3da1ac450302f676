SPECIFICATION Spec
CONSTANTS
 Family = "manip"
 Depth = 3
INVARIANTS Emit Small0
CHECK_DEADLOCK FALSE
