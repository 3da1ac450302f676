SPECIFICATION Spec
CONSTANT Family = "pick"
INVARIANTS OncePerMultiple NoFileTwice InOrder Emit
CHECK_DEADLOCK FALSE
