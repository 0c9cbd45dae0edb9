SPECIFICATION Spec
INVARIANT Owned
CHECK_DEADLOCK FALSE
