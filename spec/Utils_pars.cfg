SPECIFICATION Spec
CONSTANTS
 Family = "pars"
 Depth = 3
INVARIANT Emit
PROPERTIES OnlyNamed RoundTrip OnlyListed
CHECK_DEADLOCK FALSE
