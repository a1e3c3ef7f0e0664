SPECIFICATION Spec
INVARIANTS Same Current
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
CONSTANTS
  Objs = {o1, o2}
  Points = {0, 1, 2}
  Len0 = 4
  Drop = {}
  Shared = TRUE
  Residue = FALSE
