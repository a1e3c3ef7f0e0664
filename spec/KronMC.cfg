SPECIFICATION Spec
CONSTANT K = 2
INVARIANT Inv1
CHECK_DEADLOCK FALSE
