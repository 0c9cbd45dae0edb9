SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS SuccessIsComplete FailureIsClean StuckIsPartial ResolveFirst
PROPERTIES FilesGrow Terminates
