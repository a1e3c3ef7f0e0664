SPECIFICATION Spec
CONSTANTS
  Dual = TRUE
  Dwd = FALSE
  NReq = 2
  MaxRef = 11
  NSys = 3
  Broken = "none"
INVARIANTS InRange Progress StartsFromZero Confirmed Bounded Fits
PROPERTIES Verdict EndsEventually
VIEW View
CHECK_DEADLOCK FALSE
