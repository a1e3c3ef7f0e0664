SPECIFICATION Spec
CONSTANTS MaxIt = 4
 AccIt = 3
 R = 2
 Chain = 2
 Variant = "noreset"
INVARIANTS TypeOK StatusTruth LimitKept Bounded
PROPERTIES MuMonotone FilterChangesOnlyAsDocumented NoReturn FilterRenewed MuThreshold Terminates
