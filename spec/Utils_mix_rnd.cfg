SPECIFICATION Spec
CONSTANTS
 Family = "mix"
 Depth = 6
INVARIANT Emit
PROPERTIES OnlyNamed RoundTrip OnlyListed
CHECK_DEADLOCK FALSE
