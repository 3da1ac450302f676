SPECIFICATION Spec
CONSTANTS
  NI = 2
  NP = 0
  NB = 1
  Ints = {1, 2}
  Points = {0}
  MaxLen = 3
  Groups = {"push", "list", "drop", "ask"}
  MaxHist = 1000000
  Mode = "edges"
VIEW state
INVARIANT BlistRight
PROPERTIES UnionRight OthersKept
CHECK_DEADLOCK FALSE
