SPECIFICATION Spec
CONSTANTS
  NG = 2
  NB = 6
  Shape <- Shape2
  Kinds <- KindsD
  Fs = {0, 1, 2, 3, 4, 5}
  Pts = {0, 5, 11, 23}
  MaxFaces = 6
  MaxPts = 40
  Groups = {"add", "point", "remove", "free", "other", "link", "side", "ask", "switch", "mark", "fill", "number", "flags", "copy"}
  MaxHist = 60
  Mode = "random"
PROPERTIES OnlyThat Mutually Opposite CopyRight
CHECK_DEADLOCK FALSE
