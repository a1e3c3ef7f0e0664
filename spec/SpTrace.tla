------------------------------ MODULE SpTrace  -------------------------------
(* Sparse and mixed matrix operations executed by the real classes: op events [o, c, ix, pre, post, ret, agree]. *)
EXTENDS TraceLib, SpMat
VARIABLES t, l, errs, live
vars == <<t, l, errs, live>>
M == Traces[t].meta
E == Traces[t].ev[l]
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ live = TRUE
Exec == /\ E.e = "op"
        /\ errs' = errs \cup (LET f == SpFollows(E.o, E.pre, E.post, E.c, E.ix, E.ret) IN
             Rule(f.result, "P17-result:" \o E.o, l) \cup Rule(f.frame, "P17-only-the-output-changes:" \o E.o, l) \cup Rule(f.ret, "P17-return:" \o E.o, l))
             \cup Rule(E.agree, "P17-agree", l)
End == E.e = "end" /\ errs' = errs \cup Rule(E.ok, "P17-finishes", l)
Died == E.e \in {"assert", "crash", "harness-error"} /\ errs' = errs \cup {"P17-died@" \o ToString(l)}
Step == l <= Len(Traces[t].ev) /\ (Exec \/ End \/ Died) /\ l' = l + 1 /\ UNCHANGED <<t, live>>
Finish == /\ l = Len(Traces[t].ev) + 1 /\ live /\ live' = FALSE
          /\ Report(t, errs \cup Rule(l > 1 /\ Traces[t].ev[l - 1].e = "end", "P17-trace-ends", l))
          /\ UNCHANGED <<t, l, errs>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
