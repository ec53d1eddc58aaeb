SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Unharmed Complete Export
