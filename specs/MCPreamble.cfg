SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Marked StdlibOnce OwnHeaderLast NoCgoInPlain EveryInclude
PROPERTIES OnlyGrows Terminates
