SPECIFICATION Spec
CONSTANTS
  NL = 4
  Shapes <- ShapesB
  Inactive = {2}
  MaxLen = 8
  MaxHist = 40
  Mode = "random"
  Groups = {"list", "arith", "var"}
  PushVars = {0, 1, 2, 3, 4, 5}
  Coefs <- CoefB
  InitLists <- ListsB
CHECK_DEADLOCK FALSE
