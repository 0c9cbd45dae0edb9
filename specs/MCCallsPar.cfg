SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Faithful Transparent Apart
PROPERTIES Terminates
