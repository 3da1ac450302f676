SPECIFICATION Spec
CONSTANTS Family = "two"
CONSTANT Many = 100
INVARIANTS Factors Small Det3 Emit
CHECK_DEADLOCK FALSE
