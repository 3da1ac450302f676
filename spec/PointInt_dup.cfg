SPECIFICATION Spec
CONSTANTS
  NI = 1
  NP = 2
  NB = 2
  Ints = {0}
  Points = {0}
  MaxLen = 1
  Groups = {"alloc", "point", "off"}
  MaxHist = 1000000
  Mode = "edges"
VIEW state
INVARIANT BlistRight
PROPERTIES UnionRight OthersKept
CHECK_DEADLOCK FALSE
