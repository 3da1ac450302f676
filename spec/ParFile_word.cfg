SPECIFICATION Spec
CONSTANTS
  Pieces <- WordPieces
  MaxPieces = 14
  MaxReads = 2
INVARIANTS UniqueNames CleanValues LayoutFree Emit
CHECK_DEADLOCK FALSE
