CONSTANTS P = 3
 S = 3
 MaxIt = 1
 Variant = "earlyend"
SPECIFICATION Spec
INVARIANTS ExactSum
