CONSTANTS P = 3
 S = 3
 MaxIt = 1
 Variant = "nolast"
SPECIFICATION Spec
INVARIANTS ExactSum
