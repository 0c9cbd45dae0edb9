SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OneEach AsAlone Idempotent
PROPERTY OnlyItsOwn
