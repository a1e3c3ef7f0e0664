--------------------------------- MODULE Dist ---------------------------------
(* Distributed computation (P14): every process runs the sequential algorithm; a quantity over distributed data is obtained by a
   collective operation, and decisions are taken on such quantities.  A decision on local data, or a collective that some processes
   skip, lets processes wait in different collectives.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Vals, MaxOps,
          LocalDecision,      \* processes decide on their own part
          SkipEmpty           \* processes without data skip the collective
VARIABLES x,                  \* local data (-1: no data on this process)
          log,                \* collectives entered
          got,                \* values received
          wait                \* the collective each process is blocked in ("" when running)
vars == <<x, log, got, wait>>
MaxS(S) == CHOOSE m \in S : \A k \in S : k <= m
Red == MaxS({x[p] : p \in Procs} \cup {0})
\* the sequential algorithm: measure; as long as the measure is large refine (which needs another collective), then finish
Next1(r, k) == IF k >= MaxOps THEN "stop" ELSE IF k % 2 = 1 THEN (IF r > 1 THEN "refine" ELSE "finish") ELSE "measure"
RECURSIVE Seq1(_, _)
Seq1(r, k) == LET o == Next1(r, k) IN IF o = "stop" THEN <<>> ELSE <<o>> \o Seq1(r, k + 1)
Init == x \in [Procs -> Vals \cup {-1}] /\ log = [p \in Procs |-> <<>>] /\ got = [p \in Procs |-> 0] /\ wait = [p \in Procs |-> ""]
Enter(p) == /\ wait[p] = ""
            /\ LET k == Len(log[p]) o == Next1(IF LocalDecision THEN (IF x[p] < 0 THEN 0 ELSE x[p]) ELSE got[p], k) IN
               /\ o # "stop"
               /\ log' = [log EXCEPT ![p] = Append(@, o)]
               /\ IF SkipEmpty /\ x[p] = -1 /\ o = "refine" THEN UNCHANGED wait ELSE wait' = [wait EXCEPT ![p] = o]
            /\ UNCHANGED <<x, got>>
\* a collective completes when every process has entered it
Complete == /\ \E o \in {"measure", "refine", "finish"} : \A p \in Procs : wait[p] = o
            /\ got' = [p \in Procs |-> Red] /\ wait' = [p \in Procs |-> ""] /\ UNCHANGED <<x, log>>
Next == Complete \/ \E p \in Procs : Enter(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
IsPre(a, b) == Len(a) <= Len(b) /\ \A k \in 1 .. Len(a) : a[k] = b[k]
SameCalls == \A p, q \in Procs : IsPre(log[p], log[q]) \/ IsPre(log[q], log[p])
Sequential == \A p \in Procs : IsPre(log[p], Seq1(Red, 0))
NoDesync == ~ (\A p \in Procs : wait[p] # "" /\ \E q \in Procs : wait[q] # wait[p])
Finishes == <>(\A p \in Procs : wait[p] = "" /\ Len(log[p]) = MaxOps)
=============================================================================
