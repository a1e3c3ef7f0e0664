SPECIFICATION Spec
CONSTANTS
  Objs = {o1, o2}
  Opts = {1, 2}
  Probs = {1, 2}
  ResetParts = {"filter", "mu", "transforms", "counters", "workspace"}
  MaxSolves = 4
INVARIANT Reproducible
CHECK_DEADLOCK FALSE
