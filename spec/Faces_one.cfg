SPECIFICATION Spec
CONSTANTS
  NG = 1
  NB = 1
  Shape <- Shape1
  Kinds <- KindsC
  Fs = {0, 3}
  Pts = {0, 1}
  MaxFaces = 2
  MaxPts = 2
  Groups = {"add", "point", "remove", "free"}
  MaxHist = 1000000
  Mode = "edges"
VIEW state
PROPERTIES OnlyThat Mutually Opposite CopyRight
CHECK_DEADLOCK FALSE
