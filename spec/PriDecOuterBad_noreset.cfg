SPECIFICATION Spec
CONSTANTS MaxIt = 7
 Limit = 3
 Variant = "noreset"
INVARIANTS StopsTruthfully NeverBeyond
PROPERTY Terminates
