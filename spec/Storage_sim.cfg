SPECIFICATION Spec
CONSTANTS
  NG = 2
  Shapes <- ShapesB
  Fams <- FamsC
  MaxVars = 40
  Vals = {7, 3, 12, 100}
  MaxHist = 60
  Mode = "random"
  Groups = {"make", "add", "dup", "var", "comp", "box", "list", "write", "active", "set", "copy"}
CHECK_DEADLOCK FALSE
