SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoClash NoClashT Usable Copies Reaches Whole
PROPERTY Ends
