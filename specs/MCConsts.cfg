SPECIFICATION Spec
CONSTANTS
  Ops = {"+", "<<", "|", "*"}
  Uns = {"-", "~"}
  MaxLen = 5
  BodiesA = {1, 2, 3, 4, 6, 10}
  BodiesB = {3, 7, 8, 9}
INVARIANT Faithful
CHECK_DEADLOCK FALSE
