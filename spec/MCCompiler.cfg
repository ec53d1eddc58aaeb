SPECIFICATION Spec
INVARIANT Sound
PROPERTY RejectionFinal
CHECK_DEADLOCK FALSE
