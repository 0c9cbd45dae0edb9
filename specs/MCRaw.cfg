SPECIFICATION Spec
CONSTANTS Steps = 4
INVARIANTS Typed Accounted NotInC Shared
PROPERTIES Local Fresh
CHECK_DEADLOCK FALSE
