SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Vals = {0, 1, 2}
  MaxOps = 6
  LocalDecision = FALSE
  SkipEmpty = TRUE
INVARIANTS SameCalls Sequential NoDesync
PROPERTY Finishes
CHECK_DEADLOCK FALSE
