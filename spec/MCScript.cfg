SPECIFICATION Spec
INVARIANT Announced
INVARIANT Ordered
INVARIANT Refused
INVARIANT Export
PROPERTY Ends
CHECK_DEADLOCK FALSE
