SPECIFICATION Spec
CONSTANTS
  Vocab <- VDirect
  Way = "direct"
  MaxLen = 3
INVARIANTS Exactly OrderFree
CHECK_DEADLOCK FALSE
