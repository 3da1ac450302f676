SPECIFICATION Spec
CONSTANTS
  NL = 6
  Shapes <- ShapesA
  Inactive = {}
  MaxLen = 4
  MaxHist = 2
  Mode = "paths"
  Groups = {"arith", "var"}
  PushVars = {0}
  Coefs <- CoefA
  InitLists <- ListsB
PROPERTIES ArithLeavesLists OnlyTarget InactiveUntouched OnlyTargetData
CHECK_DEADLOCK FALSE
