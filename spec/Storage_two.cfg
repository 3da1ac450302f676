SPECIFICATION Spec
CONSTANTS
  NG = 2
  Shapes <- ShapesA
  Fams <- FamsB
  MaxVars = 2
  Vals = {7}
  MaxHist = 1000000
  Mode = "edges"
  Groups = {"make", "add", "dup", "var", "write", "copy", "off1"}
VIEW state
PROPERTIES Isolated EnableKeeps CopyEqual
CHECK_DEADLOCK FALSE
