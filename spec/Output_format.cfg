SPECIFICATION Spec
CONSTANT Family = "format"
INVARIANTS OncePerMultiple NoFileTwice InOrder Emit
CHECK_DEADLOCK FALSE
