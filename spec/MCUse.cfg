SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT LatestCounts
INVARIANT Total
INVARIANT Export
PROPERTY Separate
PROPERTY Kept
