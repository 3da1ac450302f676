SPECIFICATION Spec
CONSTANTS
  Names = {"g", "K", "alpha", "Gamma_", "x", "phi", "psi"}
  Forms = {"", "i", "(ij)", "[ij]", "I", "i(JK)", "(ab)", "iq", "ij-ji"}
  Posts = {"_p", "_pp", "_x"}
  Bnds <- BndsB
  MaxVars = 120
  MaxHist = 30
  Groups = {"again"}
  Mode = "random"
INVARIANT Unique
CHECK_DEADLOCK FALSE
