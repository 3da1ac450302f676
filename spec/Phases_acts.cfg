SPECIFICATION Spec
CONSTANTS Family = "acts"
  MaxActs = 1
INVARIANTS Stops NeverBeyond LastOnce
PROPERTIES Counts Once
CHECK_DEADLOCK FALSE
