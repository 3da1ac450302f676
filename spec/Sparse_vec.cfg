SPECIFICATION Spec
CONSTANTS Family = "vec"
CONSTANT Many = 2
INVARIANTS Exact Product Linear Emit
CHECK_DEADLOCK FALSE
