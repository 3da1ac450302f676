SPECIFICATION Spec
CONSTANTS
  Cfgs <- VResume
  MaxHist = 6
  MaxLog = 60
  MaxIt = 60
  Mode = "random"
  Groups = {"any", "recover", "damage"}
INVARIANTS NeverLost Continues Stored
PROPERTIES Untouched KeptPrev Discard NoCkDropped
CHECK_DEADLOCK FALSE
