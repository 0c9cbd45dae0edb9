SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 3
CHECK_DEADLOCK FALSE
INVARIANTS Once Closed SameOrder Prefix NoDeadlock
PROPERTY Ends
