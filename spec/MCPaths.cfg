SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Latest Known Export
