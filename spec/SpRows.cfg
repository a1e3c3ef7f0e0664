SPECIFICATION Spec
INVARIANTS WalksTheRows CacheIsCurrent
CONSTANTS Rows = 3 Nz = 4 Discards = {"sort", "place", "copyRows"}
CHECK_DEADLOCK FALSE
