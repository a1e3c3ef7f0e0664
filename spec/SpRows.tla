------------------------------- MODULE SpRows -------------------------------
(* A triplet matrix keeps the position where each row starts, computed on first use (by the operations that walk rows), while
   other operations rewrite the rows of its entries. Whoever walks the rows must see the rows of the current entries. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Rows, Nz, Discards   \* Discards: the operations that discard the cached positions
Ops == {"sort", "place", "copyRows", "revalue"}
VARIABLES row, val, cache, seen
vars == <<row, val, cache, seen>>
None == <<>>
Ordered(r) == \A k \in 2 .. Nz : r[k - 1] <= r[k]
Pats == {r \in [1 .. Nz -> 0 .. Rows - 1] : Ordered(r)}
Starts(r) == [i \in 1 .. Rows + 1 |-> Cardinality({k \in 1 .. Nz : r[k] < i - 1})]
Init == row \in Pats /\ val \in [1 .. Nz -> 0 .. 1] /\ cache = None /\ seen = TRUE
\* values change, the pattern does not
Revalue == \E v \in [1 .. Nz -> 0 .. 1] : val' = v /\ UNCHANGED <<row, cache, seen>>
Repattern(o) == \E r \in Pats : row' = r /\ cache' = (IF o \in Discards THEN None ELSE cache) /\ UNCHANGED <<val, seen>>
\* row-wise product: uses the positions, computing them if there are none
Walk == LET c == IF cache = None THEN Starts(row) ELSE cache IN
        /\ cache' = c /\ UNCHANGED <<row, val>>
        /\ seen' = \A i \in 1 .. Rows : {k \in 1 .. Nz : c[i] < k /\ k <= c[i + 1]} = {k \in 1 .. Nz : row[k] = i - 1}
Next == Revalue \/ Walk \/ \E o \in {"sort", "place", "copyRows"} : Repattern(o)
Spec == Init /\ [][Next]_vars
WalksTheRows == seen
CacheIsCurrent == cache = None \/ cache = Starts(row)
=============================================================================
