SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS PrefixFree Idempotent Complete Export
