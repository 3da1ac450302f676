SPECIFICATION Spec
CONSTANTS
  MaxB = 3
  MaxN = 3
  Calls = 12
INVARIANTS SlopeIs NoFlux Report
PROPERTY OnlyLists
CHECK_DEADLOCK FALSE
