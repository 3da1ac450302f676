SPECIFICATION Spec
CONSTANTS
  Vocab <- VFile
  Way = "file"
  MaxLen = 5
INVARIANTS BlankFree
CHECK_DEADLOCK FALSE
