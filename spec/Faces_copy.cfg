SPECIFICATION Spec
CONSTANTS
  NG = 2
  NB = 1
  Shape <- Shape1
  Kinds <- KindsC
  Fs = {1}
  Pts = {0}
  MaxFaces = 2
  MaxPts = 1
  Groups = {"add", "point", "remove", "free", "copy", "switch"}
  MaxHist = 1000000
  Mode = "edges"
VIEW state
PROPERTIES OnlyThat Mutually Opposite CopyRight
CHECK_DEADLOCK FALSE
