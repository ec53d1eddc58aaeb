SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Exact Monotone Export
