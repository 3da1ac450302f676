SPECIFICATION Spec
CONSTANTS Family = "random"
  MaxActs = 4
INVARIANTS Stops NeverBeyond LastOnce
PROPERTIES Counts Once
CHECK_DEADLOCK FALSE
