SPECIFICATION Spec
CONSTANT ScaleInfinite = FALSE
INVARIANTS SameInternal SamePattern SameBodies RoundTrip
CHECK_DEADLOCK FALSE
