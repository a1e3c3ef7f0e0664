SPECIFICATION Spec
CONSTANTS Variant = "ok"
 Part = "num"
 Files = {TRUE, FALSE}
VIEW View
INVARIANTS IsConsistent IsIdempotent StaysInRange Precedence DefaultsUntouched
PROPERTY FileWins
