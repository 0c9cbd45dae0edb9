SPECIFICATION Spec
CONSTANTS Steps = 6
 Lay = 2
INVARIANTS Owned NoLeak Faithful Cached Kept Told Freed
CHECK_DEADLOCK FALSE
