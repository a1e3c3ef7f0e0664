SPECIFICATION Spec
CONSTANTS Max = 2 Len0 = 8
INVARIANTS Exact Ordered Scale Newer
CHECK_DEADLOCK FALSE
