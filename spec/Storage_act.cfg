SPECIFICATION Spec
CONSTANTS
  NG = 1
  Shapes <- ShapesA
  Fams <- FamsB
  MaxVars = 2
  Vals = {7}
  MaxHist = 1000000
  Mode = "edges"
  Groups = {"active", "set", "var", "add"}
VIEW state
PROPERTIES Isolated EnableKeeps
CHECK_DEADLOCK FALSE
