SPECIFICATION Spec
CONSTANTS
  Mode = "rnd"
  MaxSteps = 4
INVARIANTS NRhs Weights
PROPERTIES Outside
CHECK_DEADLOCK FALSE
