SPECIFICATION Spec
CONSTANTS
  Pieces <- CharPieces
  MaxPieces = 6
  MaxReads = 1
INVARIANTS UniqueNames CleanValues LayoutFree RoundTrip Emit
CHECK_DEADLOCK FALSE
