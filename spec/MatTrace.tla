------------------------------ MODULE MatTrace -------------------------------
(* Matrix operations executed by the real classes: op events [o, c, ix, pre, post, ret, agree]. *)
EXTENDS TraceLib, Mat
VARIABLES t, l, errs, live
vars == <<t, l, errs, live>>
M == Traces[t].meta
E == Traces[t].ev[l]
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ live = TRUE
Exec == /\ E.e = "op"
        /\ errs' = errs \cup (LET f == Follows(E.o, E.pre, E.post, E.c, E.ix, M.own, M.P, E.ret) IN
             Rule(f.result, "result:" \o E.o, l) \cup Rule(f.frame, "only-the-output-changes:" \o E.o, l) \cup Rule(f.ret, "return:" \o E.o, l))
             \cup Rule(E.agree, "processes-agree:" \o E.o, l)
End == E.e = "end" /\ errs' = errs \cup Rule(E.ok, "all-processes-finish", l)
Died == E.e \in {"assert", "crash", "harness-error"} /\ errs' = errs \cup {"process-died@" \o ToString(l)}
Step == l <= Len(Traces[t].ev) /\ (Exec \/ End \/ Died) /\ l' = l + 1 /\ UNCHANGED <<t, live>>
Finish == /\ l = Len(Traces[t].ev) + 1 /\ live /\ live' = FALSE
          /\ Report(t, errs \cup Rule(l > 1 /\ Traces[t].ev[l - 1].e = "end", "trace-ends", l))
          /\ UNCHANGED <<t, l, errs>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
