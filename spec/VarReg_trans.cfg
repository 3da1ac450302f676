SPECIFICATION Spec
CONSTANTS
  Names = {"g", "gx"}
  Forms = {"", "i"}
  Posts = {"_p"}
  Bnds <- BndsA
  MaxVars = 4
  MaxHist = 100
  Groups = {"die","again"}
  Mode = "transitions"
VIEW state
INVARIANTS Unique Families
PROPERTY Stable
CHECK_DEADLOCK FALSE
