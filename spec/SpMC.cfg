SPECIFICATION Spec
INVARIANT Laws
CONSTANT MaxNz = 2
CHECK_DEADLOCK FALSE
