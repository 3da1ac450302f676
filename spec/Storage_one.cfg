SPECIFICATION Spec
CONSTANTS
  NG = 1
  Shapes <- ShapesA
  Fams <- FamsA
  MaxVars = 3
  Vals = {7}
  MaxHist = 1000000
  Mode = "edges"
  Groups = {"var", "comp", "box", "list", "write", "off1"}
VIEW state
PROPERTIES Isolated EnableKeeps
CHECK_DEADLOCK FALSE
