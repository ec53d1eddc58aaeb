SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip Prefix Order Nulls Export
