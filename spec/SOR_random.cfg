SPECIFICATION Spec
CONSTANTS Family = "random" Many = 500
INVARIANTS Solved Exact Emit
CHECK_DEADLOCK FALSE
