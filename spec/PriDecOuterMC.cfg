SPECIFICATION Spec
CONSTANTS MaxIt = 7
 Limit = 3
 Variant = "ok"
INVARIANTS StopsTruthfully NeverBeyond
PROPERTY Terminates
