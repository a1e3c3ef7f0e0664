SPECIFICATION Spec
CONSTANTS Top = 4 Tol = 1 Limit = 4 MaxStag = 2 Drift = 1 Variant = "offbyone"
INVARIANTS Truth Reason Count Best
PROPERTY Terminates
CHECK_DEADLOCK FALSE
