SPECIFICATION Spec
CONSTANTS Family = "threads"
CONSTANT Many = 1
INVARIANTS Exact Product Linear Emit
CHECK_DEADLOCK FALSE
