SPECIFICATION Spec
CONSTANTS
  Names = {"a", "ab"}
  Vals = {"", "1", "xab ab", "yes 2"}
  Words1 = {"ab", "x"}
  Descr = {"d1"}
  Ints = {7}
  Dbls = {"0.5"}
  MaxPar = 2
  MaxLen = 9
  MaxHist = 100
  Groups = {"add","set","self","read","die","num","app"}
  Mode = "transitions"
VIEW state
INVARIANT Unique
PROPERTIES OnlyNamed DefaultNeverOverrides ReadsPure AppendKeeps
CHECK_DEADLOCK FALSE
