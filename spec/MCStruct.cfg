SPECIFICATION Spec
INVARIANT Sound
INVARIANT Positions
INVARIANT Tiled
PROPERTY ReadsBack
PROPERTY Isolated
CHECK_DEADLOCK FALSE
