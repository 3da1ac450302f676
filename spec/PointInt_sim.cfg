SPECIFICATION Spec
CONSTANTS
  NI = 3
  NP = 3
  NB = 3
  Ints = {0, 1, 2, 5}
  Points = {0, 1, 2, 3, 4, 5}
  MaxLen = 12
  Groups = {"alloc", "point", "points", "push", "list", "drop", "ask", "off"}
  MaxHist = 80
  Mode = "random"
INVARIANT BlistRight
CHECK_DEADLOCK FALSE
