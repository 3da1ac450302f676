SPECIFICATION Spec
CONSTANTS
  NI = 1
  NP = 1
  NB = 2
  Ints = {0, 1}
  Points = {0, 1}
  MaxLen = 2
  Groups = {"alloc", "point", "points", "push", "off"}
  MaxHist = 1000000
  Mode = "edges"
VIEW state
INVARIANT BlistRight
PROPERTIES UnionRight OthersKept
CHECK_DEADLOCK FALSE
