SPECIFICATION Spec
CONSTANTS Family = "system"
CONSTANT Many = 300
INVARIANTS Exact Product Linear Emit
CHECK_DEADLOCK FALSE
