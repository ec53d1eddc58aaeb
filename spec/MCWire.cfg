SPECIFICATION Spec
INVARIANT Sound
INVARIANT RoundTrip
INVARIANT Complete
INVARIANT Offsets
INVARIANT UnionsMatch
INVARIANT Flags
INVARIANT LengthsTell
INVARIANT NoTerminatorInside
INVARIANT Total
PROPERTY Stable
CHECK_DEADLOCK FALSE
