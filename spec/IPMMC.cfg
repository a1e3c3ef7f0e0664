SPECIFICATION Spec
CONSTANTS MaxIt = 3
 AccIt = 2
 R = 2
 Chain = 2
 Variant = "ok"
INVARIANTS TypeOK StatusTruth LimitKept Bounded
PROPERTIES MuMonotone FilterChangesOnlyAsDocumented NoReturn FilterRenewed MuThreshold Terminates
