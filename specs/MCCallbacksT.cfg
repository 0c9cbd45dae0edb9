SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxEvents = 4
INVARIANTS Reaches Behind Bracketed
PROPERTIES Stays WritersOnly Terminates
