-------------------------- MODULE PriDecOuterTrace ---------------------------
(* Recorded outer loops: several runs (process counts, schedules, communication schemes, repeated runs of one object)
   of the same problem.  Every run must follow the stopping rule of PriDecOuter and all must show the same sequence. *)
EXTENDS TraceLib, PriDecOuter
VARIABLES t, l, errs, k, accs, ct, phase, seq, ref, nrun, run, rets, live
vars == <<t, l, errs, k, accs, ct, phase, seq, ref, nrun, run, rets, live>>
M == Traces[t].meta
E == Traces[t].ev[l]
NoRun == [P |-> 0, local |-> 0, again |-> 0]
Init == /\ t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ k = -1 /\ accs = {0} /\ ct = "gt" /\ phase = "idle" /\ seq = <<>>
        /\ ref = <<>> /\ nrun = 0 /\ run = NoRun /\ rets = {} /\ live = TRUE

\* an observation of a run: must equal the same observation of the first run
Same(o) == IF nrun = 1 THEN TRUE ELSE Len(seq) < Len(ref) /\ ref[Len(seq) + 1] = o
Note(o) == seq' = Append(seq, o) /\ UNCHANGED ref

Run == /\ E.e = "run"
       /\ errs' = errs
       /\ nrun' = nrun + 1 /\ run' = E /\ k' = -1 /\ accs' = {0} /\ ct' = "gt" /\ phase' = "start"
       /\ ref' = IF nrun = 1 THEN seq ELSE ref
       /\ seq' = <<>> /\ rets' = {}
       /\ UNCHANGED live
Master == /\ E.e = "master"
          /\ LET o == <<"m", E.x, E.obj>> IN
             /\ errs' = errs \cup Rule(phase = "start" <=> ~E.inc, "first-solve-is-basecase", l)
                             \cup Rule(phase # "solved" \/ ~MustStop(k, M.maxit, ct, accs, M.acc), "stops-when-a-test-is-met", l)
                             \cup Rule(phase \in {"start", "model"}, "master-solved-out-of-turn", l)
                             \cup Rule(E.ok, "model-functions-agree", l)
                             \cup Rule(Same(o), "same-master-points", l)
             /\ Note(o)
          /\ phase' = "solved"
          /\ UNCHANGED <<k, accs, ct, nrun, run, rets, live>>
Model == /\ E.e = "model"
         /\ LET o == <<"r", E.v, E.g, E.h, E.x0>> IN
            /\ errs' = errs \cup Rule(phase = "solved", "model-out-of-turn", l)
                            \cup Rule(k < 0 \/ ~MustStop(k, M.maxit, ct, accs, M.acc), "stops-when-a-test-is-met", l)
                            \cup Rule(E.vok, "exact-value", l) \cup Rule(E.gok, "exact-gradient", l)
                            \cup Rule(E.cok, "curvature-limits", l) \cup Rule(E.xok, "model-centre", l) \cup Rule(E.nok, "model-sizes", l)
                            \cup Rule(Same(o), "same-models", l)
            /\ Note(o)
         /\ k' = k + 1 /\ phase' = "model"
         /\ ct' = IF k = -1 THEN "gt" ELSE E.ct
         /\ accs' = NextAcc(accs, IF k = -1 THEN "gt" ELSE E.ca)
         /\ UNCHANGED <<nrun, run, rets, live>>
Ret == /\ E.e = "ret"
       /\ LET o == <<"ret", E.st, E.obj, E.x>> IN
          /\ errs' = errs \cup Rule(phase = "solved" /\ k >= 0, "return-after-a-master-solve", l)
                          \cup Rule(MayStop(k, M.maxit, ct, accs, M.acc), "stops-only-when-a-test-is-met", l)
                          \cup Rule(E.it = k, "iteration-count", l)
                          \cup Rule(E.r = 0 => E.st = E.exp, "status-of-the-last-master-solve", l)
                          \cup Rule(E.r = 0 => seq # <<>> /\ seq[Len(seq)][1] = "m" /\ seq[Len(seq)][2] = E.x /\ seq[Len(seq)][3] = E.obj, "solution-of-the-last-master-solve", l)
                          \cup Rule(E.r \notin rets, "one-return", l)
                          \cup Rule((E.r = 0 /\ nrun > 1) => IF nrun = 2 \/ ref # <<>> THEN Len(seq) = Len(ref) ELSE TRUE, "same-length", l)
       /\ rets' = rets \cup {E.r}
       /\ UNCHANGED <<k, accs, ct, phase, seq, ref, nrun, run, live>>
End == /\ E.e = "end"
       /\ errs' = errs \cup Rule(E.ok, "terminates:" \o E.why, l)
                       \cup Rule(E.ok => rets = Dom(run.P), "every-process-returns", l)
       /\ phase' = "idle"
       /\ UNCHANGED <<k, accs, ct, seq, ref, nrun, run, rets, live>>
Died == /\ E.e \in {"assert", "crash"}
        /\ errs' = errs \cup {"process-died@" \o ToString(l)}
        /\ UNCHANGED <<k, accs, ct, phase, seq, ref, nrun, run, rets, live>>
Step == l <= Len(Traces[t].ev) /\ (Run \/ Master \/ Model \/ Ret \/ End \/ Died) /\ l' = l + 1 /\ t' = t
Finish == /\ l = Len(Traces[t].ev) + 1 /\ live /\ live' = FALSE
          /\ Report(t, errs \cup Rule(phase = "idle" /\ nrun >= 2, "trace-ends", l))
          /\ UNCHANGED <<t, l, errs, k, accs, ct, phase, seq, ref, nrun, run, rets>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
