SPECIFICATION Spec
CONSTANTS
  Mode = "pairs"
  MaxSteps = 2
INVARIANTS NRhs Weights
PROPERTIES Outside
CHECK_DEADLOCK FALSE
