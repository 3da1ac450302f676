SPECIFICATION Spec
CONSTANTS
  NB = 2
  MaxN = 3
  Calls = 4
  Kinds = {"cart", "vars", "funs"}
  Sloppy = FALSE
INVARIANTS OnlyListed Linear Local Mutual Report
CHECK_DEADLOCK FALSE
