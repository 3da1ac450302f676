SPECIFICATION Spec
INVARIANTS AllComplete SameMeaning
CHECK_DEADLOCK FALSE
