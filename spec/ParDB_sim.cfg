SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "ab", "long_name[3]", "A:x", "zz", "zzz"}
  Vals = {"", "no", "1", "0", "-12 apples", "0.5", "-2.5e3 3", "1e-300", "xab ab", "ab xab", "aab ab abb", "yes", "on", "not", "true story", "pi", "-pi/2", "x y z", "+4"}
  Words1 = {"ab", "x", "y z", "no", "abb", "aab ab"}
  Descr = {"d1", "another description"}
  Ints = {0, 7, 123456}
  Dbls = {"0.5", "-2500", "1e-300", "0.1", "3"}
  MaxPar = 7
  MaxLen = 60
  MaxHist = 40
  Groups = {"add","set","self","read","iter","num","app","copy"}
  Mode = "random"
INVARIANT Unique
CHECK_DEADLOCK FALSE
