SPECIFICATION Spec
CONSTANTS
  NI = 2
  NP = 0
  NB = 2
  Ints = {1}
  Points = {0}
  MaxLen = 2
  Groups = {"push", "attr", "off", "drop"}
  MaxHist = 1000000
  Mode = "edges"
VIEW state
INVARIANT BlistRight
PROPERTIES UnionRight OthersKept
CHECK_DEADLOCK FALSE
