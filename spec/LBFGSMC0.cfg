SPECIFICATION Spec
CONSTANTS Max = 0 Len0 = 8
INVARIANTS Exact Ordered Scale Newer
CHECK_DEADLOCK FALSE
