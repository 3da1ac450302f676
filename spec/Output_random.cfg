SPECIFICATION Spec
CONSTANT Family = "random"
INVARIANTS OncePerMultiple Emit
CHECK_DEADLOCK FALSE
