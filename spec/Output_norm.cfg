SPECIFICATION Spec
CONSTANT Family = "norm"
INVARIANTS OncePerMultiple NoFileTwice InOrder Emit
CHECK_DEADLOCK FALSE
