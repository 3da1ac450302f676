SPECIFICATION Spec
CONSTANTS Family = "small"
Asks = 40
Small = 0
INVARIANTS Truthful Nearest Emit
CHECK_DEADLOCK FALSE
