SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS PlainText FragmentsFromMarkers ScopesSeparate Export
