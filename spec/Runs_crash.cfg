SPECIFICATION Spec
CONSTANTS
  Cfgs <- VCrash
  MaxHist = 1000000
  MaxLog = 6
  MaxIt = 5
  Mode = "edges"
  Groups = {"kill", "fail", "recover"}
VIEW state
INVARIANTS NeverLost Continues Stored
PROPERTIES Untouched KeptPrev Discard NoCkDropped
CHECK_DEADLOCK FALSE
