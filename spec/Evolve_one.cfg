SPECIFICATION Spec
CONSTANTS
  Mode = "one"
  MaxSteps = 1
INVARIANTS NRhs Weights
PROPERTIES Outside
CHECK_DEADLOCK FALSE
