SPECIFICATION Spec
CONSTANT Family = "both"
INVARIANTS OncePerMultiple Emit
CHECK_DEADLOCK FALSE
