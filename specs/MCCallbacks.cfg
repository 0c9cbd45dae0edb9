SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxEvents = 3
INVARIANTS Reaches Behind Bracketed
PROPERTIES Stays WritersOnly Terminates
