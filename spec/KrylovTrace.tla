----------------------------- MODULE KrylovTrace -----------------------------
(* Recorded iterative solves (harness/krylov.cpp) against the promises of Krylov.  Sizes are logarithms, 10^6 per decade. *)
EXTENDS TraceLib
VARIABLES t, l, errs, prev, done, env
vars == <<t, l, errs, prev, done, env>>
M == Traces[t].meta
E == Traces[t].ev[l]
None == [k |-> -1]
Floor == -10000000
Slack == 1000
Big == 2000000000
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ prev = None /\ done = None /\ env = [fault |-> FALSE, inf |-> FALSE]
\* without drift of the recurrences: well conditioned systems, or few iterations
Tame(e) == M.kind \in {0, 1, 2, 4, 7} \/ (e.e = "fam" /\ e.lim <= 2)
Per == IF M.pcg THEN 1 ELSE 2
Same(a, b) == a - b <= Slack /\ b - a <= Slack
\* a reported residual is the true one
Tell(rep, rel) == rel = Big \/ Same(rep, rel) \/ (rep <= Floor /\ rel <= Floor)
\* what every solve promises
Promise(e, fault) ==
       Rule(e.ret => e.flag = 0 /\ e.fin, "P18-converged-without-solution", l)
  \cup Rule(e.ret /\ ~fault => e.rel <= e.tol + 100 \/ e.rel <= -14000000, "P18-converged-without-the-tolerance", l)
  \cup Rule(e.ret /\ env.inf => FALSE, "P18-converged-for-a-meaningless-rhs", l)
  \cup Rule(e.zero => e.ret /\ e.zx /\ e.it2 = 0, "P18-zero-rhs", l)
  \cup Rule(~e.ret => e.flag \in {1, 3, 4}, "P18-reason", l)
  \cup Rule(e.it2 >= 0 /\ e.it2 <= 2 * e.lim, "P18-iteration-count", l)
  \cup Rule(~fault /\ ~env.inf /\ e.ret => Tell(e.rr, e.rel) /\ Tell(e.ra, e.rel), "P18-reported-residual", l)
  \cup Rule(~fault /\ ~env.inf /\ ~e.ret /\ Tame(e) => Tell(e.rr, e.rel) /\ Tell(e.ra, e.rel), "P18-reported-residual-of-failure", l)
  \cup Rule(e.said \in (IF e.ret THEN {0, 1} ELSE {2}), "P18-message", l)
  \cup Rule(e.fin \/ env.inf \/ ~Tame(e), "P18-nonfinite-solution", l)
  \cup Rule(e.flag = 1 => e.apps >= 2 + Per * e.lim /\ e.apps <= 4 + 2 * Per * e.lim, "P18-limit-not-used", l)
  \cup Rule(e.apps <= 4 + 2 * Per * e.lim, "P18-limit-exceeded", l)
Result(e) == <<e.ret, e.flag, e.it2, e.hx, e.rr, e.ra>>
New == E.e = "new" /\ env' = [fault |-> E.fault, inf |-> E.inf] /\ UNCHANGED <<errs, prev, done>>
\* the same system with growing iteration limits
Fam == /\ E.e = "fam"
       /\ errs' = errs \cup Promise(E, env.fault)
            \* the best iterate is returned: more iterations never make it worse
            \cup Rule(prev = None \/ ~Tame(E) \/ env.fault \/ env.inf \/ E.rel <= prev.rel + Slack \/ E.rel <= Floor, "P18-best-iterate", l)
            \* an outcome reached within a limit is the outcome for every larger limit
            \cup Rule(done = None \/ (done.ret = E.ret /\ done.flag = E.flag /\ done.it2 = E.it2 /\ done.hx = E.hx), "P18-outcome-depends-on-unused-limit", l)
            \* and is not reached for a smaller one
            \cup Rule(E.ret /\ prev # None /\ prev.k = E.k - 1 /\ ~prev.ret => E.it2 \in {2 * E.k, 2 * E.k - 1}, "P18-iteration-count-of-success", l)
            \cup Rule(M.spd /\ M.pcg /\ ~env.fault /\ ~env.inf /\ E.tol >= -9000000 /\ E.lim >= M.n + 2 => E.ret \/ E.flag = 4, "P18-does-not-converge", l)
            \cup Rule(M.good /\ ~M.pcg /\ ~env.fault /\ ~env.inf /\ E.tol >= -9000000 /\ E.lim >= 3 * M.n + 4 => E.ret \/ E.flag = 4, "P18-does-not-converge", l)
       /\ prev' = E /\ done' = (IF done = None /\ E.flag # 1 THEN E ELSE done) /\ UNCHANGED env
Old == /\ E.e \in {"old", "warm"} /\ errs' = errs \cup Promise(E, FALSE) /\ prev' = E /\ UNCHANGED <<done, env>>
Broken == /\ E.e = "broken" /\ errs' = errs \cup Promise(E, TRUE) /\ UNCHANGED <<prev, done, env>>
Fresh == /\ E.e = "fresh" /\ errs' = errs \cup Promise(E, FALSE) \cup Rule(Result(E) = Result(prev), "P18-reused-solver-differs", l)
         /\ UNCHANGED <<prev, done, env>>
Again == /\ E.e = "again"
         /\ errs' = errs \cup Promise(E, FALSE) \cup Rule(prev.ret => E.ret /\ E.it2 = 0 /\ E.hx = prev.hx, "P18-solution-is-not-accepted-again", l)
         /\ UNCHANGED <<prev, done, env>>
End == E.e = "end" /\ prev' = [k |-> -2] /\ UNCHANGED <<errs, done, env>>
Died == /\ E.e \in {"assert", "crash"} /\ errs' = errs \cup Rule(FALSE, "P18-" \o (IF E.e = "assert" THEN "assertion" ELSE "abnormal-end"), l)
        /\ UNCHANGED <<prev, done, env>>
Step == l <= Len(Traces[t].ev) /\ (New \/ Fam \/ Old \/ Broken \/ Fresh \/ Again \/ End \/ Died) /\ l' = l + 1 /\ UNCHANGED t
Done == /\ l = Len(Traces[t].ev) + 1
        /\ Report(t, errs \cup Rule(prev = [k |-> -2], "P18-trace-ends", l))
        /\ l' = l + 1 /\ UNCHANGED <<t, errs, prev, done, env>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
