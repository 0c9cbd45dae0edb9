SPECIFICATION Spec
CONSTANTS Steps = 6
 Lay = 1
INVARIANTS Owned NoLeak Faithful Cached Kept Told Freed
CHECK_DEADLOCK FALSE
