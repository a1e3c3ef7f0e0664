SPECIFICATION Spec
CONSTANT ScaleInfinite = TRUE
INVARIANTS SameInternal SamePattern SameBodies RoundTrip
CHECK_DEADLOCK FALSE
