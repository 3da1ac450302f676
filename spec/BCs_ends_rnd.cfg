SPECIFICATION Spec
CONSTANTS
  NB = 3
  MaxN = 3
  Calls = 3
  Kinds = {"cart", "vars", "funs"}
  Sloppy = TRUE
INVARIANTS OnlyListed Linear Local Mutual Report
CHECK_DEADLOCK FALSE
