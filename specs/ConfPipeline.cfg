SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS SuccessIsComplete FailureIsClean ResolveFirst
PROPERTY FilesGrow
