SPECIFICATION Spec
CONSTANT Family = "sched"
INVARIANTS OncePerMultiple NoFileTwice InOrder Emit
CHECK_DEADLOCK FALSE
