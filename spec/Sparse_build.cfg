SPECIFICATION Spec
CONSTANTS Family = "build"
CONSTANT Many = 1
INVARIANTS Exact Product Linear Emit
CHECK_DEADLOCK FALSE
