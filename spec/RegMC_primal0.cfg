SPECIFICATION Spec
CONSTANTS
  Dual = FALSE
  Dwd = FALSE
  NReq = 0
  MaxRef = 7
  NSys = 5
  Broken = "none"
INVARIANTS InRange Progress StartsFromZero Confirmed Bounded Fits
PROPERTIES Verdict EndsEventually
VIEW View
CHECK_DEADLOCK FALSE
