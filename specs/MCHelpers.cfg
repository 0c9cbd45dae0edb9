SPECIFICATION Spec
CONSTANTS
 N = 4
 M = 2
CHECK_DEADLOCK FALSE
INVARIANTS Once Closed SameOrder Prefix NoDeadlock
