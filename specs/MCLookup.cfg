SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnlyRealFiles UserWins LocalFirst
PROPERTIES SeenGrows Terminates
