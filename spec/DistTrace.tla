------------------------------- MODULE DistTrace -------------------------------
(* Recorded distributed solves (harness/distipm.cpp). "iter" events hold, per process, the calls into the user's code since the last
   iterate (calls) and a digest of everything replicated it was told so far (rep); x, f, pr, du, mu compare with the sequential
   solve (1 agree, 0 differ, 2 cannot tell).                                                                                   *)
EXTENDS TraceLib
VARIABLES t, l, errs, seq, run, digs, over, cur
vars == <<t, l, errs, seq, run, digs, over, cur>>
M == Traces[t].meta
E == Traces[t].ev[l]
AllSame(s) == \A k \in 1 .. Len(s) : s[k] = s[1]
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ seq = <<>> /\ run = 0 /\ digs = {} /\ over = FALSE /\ cur = "seq"
\* how far the sequential iterates are followed: later ones may separate by rounding
Follow == IF M.fam = "resto" THEN 0 ELSE IF M.convex THEN 3 ELSE 2
Sq == E.e = "seq" /\ seq' = <<E.st, E.it>> /\ UNCHANGED <<errs, run, digs, over, cur>>
Rn == E.e = "run" /\ run' = run + 1 /\ cur' = "run" /\ UNCHANGED <<errs, seq, digs, over>>
Iter == /\ E.e = "iter" /\ UNCHANGED <<seq, run, digs, over, cur>>
        /\ errs' = errs \cup Rule(AllSame(E.calls) /\ Len(E.calls) = M.P, "P14-same-calls", l) \cup Rule(AllSame(E.rep) /\ Len(E.rep) = M.P, "P14-same-values", l)
             \cup (IF Has(E, "x") /\ E.k <= Follow /\ ~over
                   THEN Rule(E.x # 0, "P14-iterate", l) \cup Rule(E.f # 0, "P14-objective", l) \cup Rule(E.mu # 0, "P14-barrier", l) \cup Rule(E.pr # 0 /\ E.du # 0, "P14-residuals", l) ELSE {})
End == /\ E.e = "end" /\ UNCHANGED <<seq, run, over>> /\ cur' = "end"
       /\ errs' = errs \cup Rule(AllSame(E.st) /\ AllSame(E.it) /\ AllSame(E.ns) /\ Len(E.st) = M.P, "P14-same-outcome", l)
            \cup Rule(digs = {} \/ E.dig \in digs, "P14-schedule-independent", l)
            \cup Rule(over \/ ~(M.convex /\ seq[1] = 0 /\ E.st[1] = 0) \/ (E.x # 0 /\ E.f # 0), "P14-solution", l)
            \* outcomes reached within the iterations that are followed
            \cup Rule(over \/ seq[2] > Follow \/ seq[1] \notin {10, 12} \/ (E.st[1] = seq[1] /\ E.it[1] = seq[2]), "P14-status", l)
       /\ digs' = digs \cup {E.dig}
Ovf == E.e = "ovf" /\ over' = TRUE /\ UNCHANGED <<errs, seq, run, digs, cur>>
Died == /\ E.e \in {"mpi", "assert", "crash"} /\ UNCHANGED <<seq, run, digs>> /\ cur' = "end" /\ over' = (over \/ cur = "seq")
        /\ errs' = errs \cup Rule(over \/ cur = "seq", "P14-completes", l)
Other == E.e \notin {"seq", "run", "iter", "end", "ovf", "mpi", "assert", "crash"} /\ UNCHANGED <<errs, seq, run, digs, over, cur>>
Step == l <= Len(Traces[t].ev) /\ (Sq \/ Rn \/ Iter \/ End \/ Ovf \/ Died \/ Other) /\ l' = l + 1 /\ UNCHANGED t
Done == /\ l = Len(Traces[t].ev) + 1 /\ Report(t, errs \cup Rule(over \/ cur = "end", "P14-trace-ends", l))
        /\ l' = l + 1 /\ UNCHANGED <<t, errs, seq, run, digs, over, cur>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
