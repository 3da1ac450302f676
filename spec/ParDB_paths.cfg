SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "ab"}
  Vals = {"yes 2", "xab ab", "pi"}
  Words1 = {"ab"}
  Descr = {"d1"}
  Ints = {7}
  Dbls = {"0.5"}
  MaxPar = 3
  MaxLen = 40
  MaxHist = 3
  Groups = {"add","set","self","read","iter","die","num","app","copy"}
  Mode = "paths"
INVARIANT Unique
PROPERTIES OnlyNamed DefaultNeverOverrides ReadsPure AppendKeeps
CHECK_DEADLOCK FALSE
