SPECIFICATION Spec
CONSTANTS
  NG = 1
  NB = 2
  Shape <- Shape1
  Kinds <- KindsC
  Fs = {4}
  Pts = {0}
  MaxFaces = 2
  MaxPts = 1
  Groups = {"add", "remove", "link", "number", "mark", "ask", "switch"}
  MaxHist = 1000000
  Mode = "edges"
VIEW state
PROPERTIES OnlyThat Mutually Opposite CopyRight
CHECK_DEADLOCK FALSE
