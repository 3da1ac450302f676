SPECIFICATION Spec
CONSTANTS
  NL = 2
  Shapes <- ShapesA
  Inactive = {}
  MaxLen = 3
  MaxHist = 100
  Mode = "edges"
  Groups = {"list"}
  PushVars = {0, 2}
  Coefs <- CoefA
  InitLists <- ListsA
VIEW state
PROPERTIES SurgeryLeavesData OnlyTarget
CHECK_DEADLOCK FALSE
