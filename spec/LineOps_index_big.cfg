SPECIFICATION Spec
CONSTANTS Family = "index"
CONSTANT MaxN = 6
CONSTANT Steps = 0
INVARIANTS IndexIsRank InvolutionOK Dump
CHECK_DEADLOCK FALSE
