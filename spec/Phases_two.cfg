SPECIFICATION Spec
CONSTANTS Family = "two"
  MaxActs = 0
INVARIANTS Stops NeverBeyond LastOnce
PROPERTIES Counts Once
CHECK_DEADLOCK FALSE
