SPECIFICATION Spec
CONSTANTS Family = "two" Many = 500
INVARIANTS Solved Exact Emit
CHECK_DEADLOCK FALSE
