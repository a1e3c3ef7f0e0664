SPECIFICATION Spec
CONSTANTS Max = 1 Len0 = 8
INVARIANTS Exact Ordered Scale Newer
CHECK_DEADLOCK FALSE
