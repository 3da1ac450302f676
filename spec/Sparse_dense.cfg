SPECIFICATION Spec
CONSTANTS Family = "dense"
CONSTANT Many = 10
INVARIANTS Exact Product Linear Emit
CHECK_DEADLOCK FALSE
