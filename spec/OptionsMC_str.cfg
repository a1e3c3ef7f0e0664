SPECIFICATION Spec
CONSTANTS Variant = "ok"
 Part = "str"
 Files = {TRUE, FALSE}
VIEW View
INVARIANTS IsConsistent IsIdempotent StaysInRange Precedence DefaultsUntouched
PROPERTY FileWins
