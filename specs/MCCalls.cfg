SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Faithful Harmless Transparent
PROPERTIES ArgsStay Terminates
