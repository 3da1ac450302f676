SPECIFICATION Spec
CONSTANTS Family = "random"
CONSTANT Many = 300
INVARIANTS Exact Product Linear Emit
CHECK_DEADLOCK FALSE
