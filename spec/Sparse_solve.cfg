SPECIFICATION Spec
CONSTANTS Family = "solve"
CONSTANT Many = 1
INVARIANTS Exact Product Linear Emit
CHECK_DEADLOCK FALSE
