SPECIFICATION Spec
CONSTANTS
  Mode = "random"
  MaxHist = 4
INVARIANTS Each
PROPERTIES Own
CHECK_DEADLOCK FALSE
