-------------------------------- MODULE IPMTrace -------------------------------
(* Recorded runs of the real solvers, checked against the rules of IPM.  Rule names start with the property they decide. *)
EXTENDS TraceLib, IPM
VARIABLES t, l, errs, cfg, ph, k, mu, mus, F, far, lo, hi, O, last, ntr, jl, up1, nsoc, nsol, st, bad, blow, live
vars == <<t, l, errs, cfg, ph, k, mu, mus, F, far, lo, hi, O, last, ntr, jl, up1, nsoc, nsol, st, bad, blow, live>>
E == Traces[t].ev[l]
NoCfg == [r |-> -1, maxit |-> 0, accit |-> 0, rel |-> 0, elastic |-> 0, force |-> 0, every |-> 0, chain |-> 0, maxsoc |-> 0, scaled |-> 0]
NoTr == [j |-> 0]
Init == /\ t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ cfg = NoCfg /\ ph = "idle" /\ k = -1 /\ mu = 0 /\ mus = {0} /\ F = {}
        /\ far = 2 /\ lo = 0 /\ hi = 0 /\ O = {Go} /\ last = NoTr /\ ntr = 0 /\ jl = -1 /\ up1 = 0 /\ nsoc = 0 /\ nsol = 0 /\ st = Go
        /\ bad = 0 /\ blow = 0 /\ live = TRUE

Run0 == /\ E.e = "run0"
        /\ errs' = errs \cup Rule(ph = "idle", "P01-one-status-per-run", l)
        /\ cfg' = E /\ ph' = "start" /\ k' = -1 /\ mu' = 0 /\ mus' = {0} /\ F' = {} /\ far' = 2 /\ lo' = 0 /\ hi' = 0 /\ O' = {Go}
        /\ last' = NoTr /\ ntr' = 0 /\ jl' = -1 /\ up1' = 0 /\ nsoc' = 0 /\ nsol' = 0 /\ st' = Go /\ bad' = 0 /\ blow' = 0
        /\ UNCHANGED live

\* ---- a user function is called
Cb == /\ E.e = "cb"
      /\ errs' = errs \cup Rule(E.nx = 1 \/ E.same = 1, "P03-unchanged-flag-with-another-point", l)
                      \cup Rule(E.sz = 1, "P03-sizes", l) \cup Rule(E.idx = 1, "P03-constraint-indices", l)
                      \cup Rule(E.fix = 1, "P08-fixed-values", l)
                      \cup Rule(E.bnd # 0, "P04-evaluated-outside-the-bounds", l)
                      \cup Rule(nsol = 0, "P02-evaluation-after-the-solution", l)
                      \cup (IF E.k = "H" THEN Rule(E.nl = 1 \/ E.sl = 1, "P03-unchanged-multipliers-flag", l) \cup Rule(May(E.lam), "P03-multipliers-of-the-hessian", l)
                                              \cup Rule(May(E.of), "P03-objective-factor", l)
                            ELSE {})
      /\ bad' = IF E.bad = 1 THEN 1 ELSE bad
      /\ UNCHANGED <<cfg, ph, k, mu, mus, F, far, lo, hi, O, last, ntr, jl, up1, nsoc, nsol, st, blow, live>>

\* ---- first trial of an iteration: its direction
Dir == /\ E.e = "dir"
       /\ errs' = errs \cup Rule(ph = "judged", "P02-direction-out-of-turn", l)
                       \cup Rule(Go \in O, "P01-goes-on-after-a-test-is-met", l)
                       \cup Rule(E.mu \in mus, IF E.mu = -1 THEN "P05-value-off-the-schedule" ELSE IF E.mu > mu THEN "P05-reduced-too-far" ELSE "P05-reduction-due", l)
                       \cup Rule(May(E.ok), "P21-direction", l)
                       \cup Rule(May(E.rows), "P21-steps-of-slacks-and-bound-multipliers", l)
       /\ ph' = "search" /\ far' = E.far /\ mu' = E.mu
       /\ F' = IF E.mu # mu THEN Renewed(E.thm) ELSE F
       /\ last' = NoTr /\ ntr' = 0 /\ jl' = -1 /\ up1' = 0 /\ nsoc' = 0
       /\ UNCHANGED <<cfg, k, mus, lo, hi, O, nsol, st, bad, blow, live>>

\* ---- a trial point
Off(e) == e.tiny = 1 \/ e.ss = 1 \/ blow = 1 \/ e.blow = 1
IsSoc == ntr >= 1 /\ jl = 0 /\ E.j # 1 /\ nsoc < cfg.maxsoc
Tr == /\ E.e = "tr"
      /\ LET inF == InFilter(F, E.th, E.ph)
             inD == InFilter(F, E.th2, E.ph2)
             off == Off(E)
         IN errs' = errs
             \cup Rule(ph = "search", "P02-trial-out-of-turn", l)
             \cup Rule(cfg.every = 0 \/ ntr = 0, "P06-second-trial-although-every-step-is-accepted", l)
             \cup Rule(off \/ ntr = 0 \/ Acceptable(last, far, F) # 1, "P06-rejected-although-acceptable", l)
             \cup Rule(off \/ ntr > 0 \/ E.j = 0, "P06-starts-at-the-largest-step", l)
             \cup Rule(off \/ ntr > 0 \/ mu = 0 \/ E.j = 0, "P05-boundary-fraction-not-renewed", l)
             \cup Rule(off \/ ntr > 0 \/ mu = 0 \/ inF = 2 \/ inF = E.fc, "P05-filter-not-renewed", l)
             \cup Rule(off \/ ntr = 0 \/ (IsSoc /\ May(up1)) \/ E.j = jl + 1, "P06-halves", l)
             \cup Rule(off \/ E.j < 1 \/ E.small # 1, "P06-below-the-smallest-step", l)
             \cup Rule(off \/ inF = 2 \/ inF = E.fc, IF inF = 1 THEN "P06-filter-misses-a-pair" ELSE "P06-filter-forbids-too-much", l)
             \cup Rule(off \/ inD = 2 \/ inD = E.fd, IF inD = 1 THEN "P06-filter-misses-a-pair" ELSE "P06-filter-forbids-too-much", l)
      /\ last' = E /\ ntr' = ntr + 1
      /\ up1' = IF ntr = 0 THEN E.up ELSE up1
      /\ nsoc' = IF IsSoc THEN nsoc + 1 ELSE nsoc
      /\ jl' = IF ntr > 0 /\ IsSoc THEN jl ELSE IF E.j >= 0 THEN E.j ELSE jl + 1
      /\ blow' = IF E.blow = 1 THEN 1 ELSE blow
      /\ UNCHANGED <<cfg, ph, k, mu, mus, F, far, lo, hi, O, nsol, st, bad, live>>

\* ---- an iterate is reported
ItFacts(e) == Rule(e.n = 1, "P02-sizes", l) \cup Rule(e.x = 1, "P02-variables", l) \cup Rule(e.obj = 1, "P02-objective", l)
        \cup Rule(e.z = 1, "P02-bound-multipliers", l) \cup Rule(e.lam = 1, "P02-constraint-multipliers", l) \cup Rule(e.g = 1, "P02-constraint-values", l)
        \cup Rule(e.s = 1, "P02-slacks", l)
        \cup Rule(e.lb = 1 \/ e.blow = 1, "P02-barrier-objective", l) \cup Rule(e.ipr = 1 \/ e.blow = 1, "P02-primal-infeasibility", l)
        \cup Rule(e.idu = 1 \/ e.blow = 1, "P02-dual-infeasibility", l) \cup Rule(e.opr = 1 \/ e.blow = 1, "P02-onenorm-infeasibility", l)
        \cup Rule(e.jac = 1, "P08-jacobian", l) \cup Rule(e.cd = 1, "P08-constraint-split", l) \cup Rule(e.osc = 1, "P08-objective-scaling", l)
        \cup Rule(May(e.bd), "P08-bounds", l)
        \cup Rule(e.sl = 1, "P04-slacks", l) \cup Rule(e.zp = 1, "P04-bound-multipliers-positive", l) \cup Rule(May(e.bnd), "P04-iterate-inside", l)
        \cup Rule(May(e.bf), "P04-fraction-to-the-boundary", l) \cup Rule(May(e.ml), "P04-moving-limit", l)
        \cup Rule(e.aj # -1 \/ e.fr = 1 \/ e.blow = 1 \/ e.k = 0, "P04-step-length", l)
        \cup Rule(May(e.st), "P04-step-along-the-direction", l)
        \cup Rule(May(e.ad), "P21-dual-step-length", l) \cup Rule(May(e.du), "P21-bound-multiplier-update", l) \cup Rule(May(e.yu), "P21-constraint-multiplier-update", l)
        \cup Rule(May(e.rok), "P20-restoration-reduces-infeasibility", l)
It == /\ E.e = "it"
      /\ LET nlo == NextLo(lo, E.ac)
             nhi == NextHi(hi, E.ac)
             chk == ntr > 0 /\ cfg.every = 0 /\ E.fr = 0 /\ E.blow = 0 /\ blow = 0 /\ last.tiny = 0
             \* the largest step of a second order correction is not known to the observer
             aug == IF last.j < 0 /\ (far # 0 \/ nsoc = 0 \/ jl # 0) THEN 2 ELSE Augments(last, far)
         IN
         /\ errs' = errs \cup ItFacts(E)
              \cup Rule(ph \in {"start", "search"}, "P02-callback-out-of-turn", l)
              \cup Rule(E.k = k + 1, "P02-iteration-number", l)
              \cup Rule(k >= 0 \/ E.a0 = 1, "P02-first-step-lengths", l)
              \cup Rule(E.mu = mu /\ E.muq = mu, IF k < 0 THEN "P05-initial-value" ELSE "P05-reported-value", l)
              \cup Rule(E.k <= cfg.maxit, "P01-iteration-limit", l)
              \cup Rule(k < 0 \/ ntr > 0, "P06-step-without-a-trial", l)
              \cup Rule(~chk \/ Acceptable(last, far, F) # 0, "P06-accepted-although-not-acceptable", l)
         /\ F' = IF ntr = 0 \/ cfg.every = 1 THEN F
                 ELSE IF ~chk THEN {[f EXCEPT !.sure = FALSE] : f \in F \cup {Entry(last.th, last.ph, FALSE)}}
                 ELSE IF aug = 0 THEN F ELSE F \cup {Entry(last.th, last.ph, aug = 1)}
         /\ O' = Verdicts(E.k, E, cfg, nlo, nhi)
         /\ lo' = nlo /\ hi' = nhi
      /\ mus' = MuAfter(mu, E.el, cfg.chain - 1, cfg.elastic = 1)
      /\ ph' = "judged" /\ k' = k + 1 /\ blow' = IF E.blow = 1 THEN 1 ELSE blow
      /\ last' = NoTr /\ ntr' = 0 /\ jl' = -1 /\ up1' = 0 /\ nsoc' = 0
      /\ UNCHANGED <<cfg, mu, far, nsol, st, bad, live>>

\* ---- the solution is handed to the user
Sol == /\ E.e = "sol"
       /\ errs' = errs \cup Rule(nsol = 0, "P02-one-solution-callback", l)
            \cup Rule(k >= 0, "P02-solution-without-an-iterate", l)
            \cup Rule(E.st \in Tested => (E.st \in O /\ ph = "judged"), "P01-status-without-its-cause", l)
            \cup Rule(E.st \notin Tested => Go \in O, "P01-failure-although-a-test-is-met", l)
            \cup Rule(E.st \in Tested \cup {Infeasible, SmallStep, StepFailed, UserError, RestoFailed}, "P01-undefined-status", l)
            \cup Rule(E.st # Success \/ May(E.kkt), "P01-success-not-optimal", l)
            \cup Rule(E.st # Acceptable2 \/ May(E.akkt), "P01-acceptable-not-optimal", l)
            \cup Rule(E.n = 1, "P02-sizes", l)
            \cup Rule(E.x = 1, "P02-solution-variables", l) \cup Rule(E.z = 1, "P02-solution-bound-multipliers", l) \cup Rule(E.lam = 1, "P02-solution-multipliers", l)
            \cup Rule(E.g = 1, "P02-solution-constraints", l) \cup Rule(E.obj = 1, "P02-solution-objective", l) \cup Rule(E.gf = 1, "P08-solution-in-user-terms", l)
            \cup Rule(E.st \notin Solved \/ E.ub = 1, "P08-solution-bounds", l)
            \cup Rule(bad = 0 \/ E.st \notin Solved, "P20-success-after-a-failed-evaluation", l)
       /\ nsol' = nsol + 1 /\ st' = E.st /\ ph' = "solved"
       /\ UNCHANGED <<cfg, k, mu, mus, F, far, lo, hi, O, last, ntr, jl, up1, nsoc, bad, blow, live>>
Ret == /\ E.e = "ret"
       /\ errs' = errs \cup Rule(ph # "idle", "P01-one-status-per-run", l)
            \cup Rule(E.st = E.gst, "P01-status-getter", l)
            \cup Rule(E.st \in Tested \cup {Infeasible, SmallStep, StepFailed, UserError, RestoFailed}, "P01-undefined-status", l)
            \cup Rule(nsol = 1 => E.st = st, "P01-same-status-everywhere", l)
            \cup Rule(nsol = 1 \/ E.st \in {UserError, StepFailed}, "P02-no-solution-callback", l)
            \cup Rule(E.st # UserError \/ bad = 1, "P20-user-error-without-cause", l)
            \cup Rule(bad = 0 \/ E.st \in {UserError, RestoFailed}, "P20-user-error-not-reported", l)
            \cup Rule(nsol = 0 \/ E.it = k, "P02-iterations-getter", l)
            \cup Rule(May(E.gx), "P02-solution-getter", l) \cup Rule(May(E.go), "P02-objective-getter", l)
            \cup Rule(May(E.gz), "P02-bound-multipliers-getter", l) \cup Rule(May(E.gl), "P02-multipliers-getter", l)
            \cup Rule(May(E.cnt), "P02-evaluation-counters", l)
       /\ ph' = "idle"
       /\ UNCHANGED <<cfg, k, mu, mus, F, far, lo, hi, O, last, ntr, jl, up1, nsoc, nsol, st, bad, blow, live>>
\* ---- abnormal ends; a diverged run (numbers beyond every reasonable magnitude) may trip internal assertions
Failed == /\ E.e = "assert"
          /\ errs' = errs \cup Rule(blow = 1, "P20-assertion:" \o E.what, l)
          /\ live' = FALSE
          /\ UNCHANGED <<cfg, ph, k, mu, mus, F, far, lo, hi, O, last, ntr, jl, up1, nsoc, nsol, st, bad, blow>>
Crash == /\ E.e = "crash"
         /\ errs' = errs \cup Rule(E.why = "assert" /\ ~live, "P20-abnormal-end:" \o E.why, l)
         /\ live' = FALSE
         /\ UNCHANGED <<cfg, ph, k, mu, mus, F, far, lo, hi, O, last, ntr, jl, up1, nsoc, nsol, st, bad, blow>>
Other == /\ E.e \notin {"run0", "cb", "dir", "tr", "it", "sol", "ret", "assert", "crash"}
         /\ UNCHANGED <<errs, cfg, ph, k, mu, mus, F, far, lo, hi, O, last, ntr, jl, up1, nsoc, nsol, st, bad, blow, live>>
Step == /\ l <= Len(Traces[t].ev) /\ l' = l + 1 /\ UNCHANGED t
        /\ (Run0 \/ Cb \/ Dir \/ Tr \/ It \/ Sol \/ Ret \/ Failed \/ Crash \/ Other)
Finish == /\ l = Len(Traces[t].ev) + 1 /\ l' = l + 1
          /\ Report(t, errs \cup Rule(ph = "idle" \/ ~live, "P20-run-ends", l))
          /\ UNCHANGED <<t, errs, cfg, ph, k, mu, mus, F, far, lo, hi, O, last, ntr, jl, up1, nsoc, nsol, st, bad, blow, live>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
