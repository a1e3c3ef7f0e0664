SPECIFICATION Spec
INVARIANT Laws
CONSTANT MaxNz = 3
CHECK_DEADLOCK FALSE
