SPECIFICATION Spec
CONSTANT MaxLen = 2
CHECK_DEADLOCK FALSE
INVARIANTS OnlyWanted NothingLost NoNameLost NoRepeat SourceOrderU
PROPERTIES AppendOnly Terminates
