SPECIFICATION Spec
INVARIANTS WalksTheRows
CONSTANTS Rows = 3 Nz = 4 Discards = {"sort", "copyRows"}
CHECK_DEADLOCK FALSE
