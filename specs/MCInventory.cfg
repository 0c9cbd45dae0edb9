SPECIFICATION Spec
CONSTANT MaxLen = 3
CHECK_DEADLOCK FALSE
INVARIANTS OnlyWanted NothingLost NoNameLost NoRepeat SourceOrderU
PROPERTY AppendOnly
