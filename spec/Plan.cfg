SPECIFICATION Spec
INVARIANTS StructsSound UnionsSound MessagesSound FailureFinal
CHECK_DEADLOCK FALSE
