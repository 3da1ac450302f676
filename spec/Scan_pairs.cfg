SPECIFICATION Spec
CONSTANTS
  Mode = "pairs"
  MaxHist = 2
INVARIANTS Each
PROPERTIES Own
CHECK_DEADLOCK FALSE
