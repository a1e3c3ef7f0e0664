------------------------------- MODULE VecTrace ------------------------------
(* Programs of vector operations executed by the real classes.  meta: P, n, own, regs.  ev: op events
   [o, a, c, ix, ret, agree, ch] (ch: registers whose contents changed, with their new contents) and end.            *)
EXTENDS TraceLib, Vec
VARIABLES t, l, errs, R, live
vars == <<t, l, errs, R, live>>
M == Traces[t].meta
E == Traces[t].ev[l]
Init == /\ t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ live = TRUE
        /\ R = [n \in {Traces[t].meta.regs[i] : i \in 1 .. Len(Traces[t].meta.regs)} |-> <<>>]
Upd(s, d) == FoldLeft(LAMBDA f, x : [f EXCEPT ![x[1]] = x[2]], s, d)
Exec == /\ E.e = "op"
        /\ LET post == Upd(R, E.ch) IN
           /\ R' = post
           /\ errs' = errs \cup
                IF E.o = "init" THEN {}
                ELSE IF E.o = "load" THEN Rule(\A n \in DOMAIN R : n # E.a[1] => post[n] = R[n], "harness", l)
                ELSE LET x == Op(E.o, R, E.a, E.c, E.ix, M.own, M.P) IN
                     Rule(\A n \in DOMAIN x.ch : post[n] = x.ch[n], "result:" \o E.o, l)
                     \cup Rule(\A n \in DOMAIN R \ DOMAIN x.ch : post[n] = R[n], "only-the-output-changes:" \o E.o, l)
                     \cup Rule(E.ret = x.ret, "return:" \o E.o, l)
                     \cup Rule(IxOk(E.o, E.ix), "result:" \o E.o, l)
                     \cup Rule(E.agree, "processes-agree:" \o E.o, l)
End == E.e = "end" /\ errs' = errs \cup Rule(E.ok, "all-processes-finish", l) /\ UNCHANGED R
Died == E.e \in {"assert", "crash", "harness-error"} /\ errs' = errs \cup {"process-died@" \o ToString(l)} /\ UNCHANGED R
Step == l <= Len(Traces[t].ev) /\ (Exec \/ End \/ Died) /\ l' = l + 1 /\ t' = t /\ UNCHANGED live
Finish == /\ l = Len(Traces[t].ev) + 1 /\ live /\ live' = FALSE
          /\ Report(t, errs \cup Rule(l > 1 /\ Traces[t].ev[l - 1].e = "end", "trace-ends", l))
          /\ UNCHANGED <<t, l, errs, R>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
