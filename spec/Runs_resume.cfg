SPECIFICATION Spec
CONSTANTS
  Cfgs <- VResume
  MaxHist = 1000000
  MaxLog = 60
  MaxIt = 9
  Mode = "edges"
  Groups = {"damage"}
VIEW state
INVARIANTS NeverLost Continues Stored
PROPERTIES Untouched KeptPrev Discard NoCkDropped
CHECK_DEADLOCK FALSE
