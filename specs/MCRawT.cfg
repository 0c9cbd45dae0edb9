SPECIFICATION Spec
CONSTANTS Steps = 5
INVARIANTS Typed Accounted NotInC Shared
PROPERTIES Local Fresh
CHECK_DEADLOCK FALSE
