SPECIFICATION Spec
CONSTANTS
  Cfgs <- VDirs
  MaxHist = 1000000
  MaxLog = 60
  MaxIt = 9
  Mode = "edges"
  Groups = {"drop", "leave", "recover"}
VIEW state
INVARIANTS NeverLost Continues Stored
PROPERTIES Untouched KeptPrev Discard NoCkDropped
CHECK_DEADLOCK FALSE
