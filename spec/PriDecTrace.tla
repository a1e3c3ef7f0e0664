----------------------------- MODULE PriDecTrace -----------------------------
(* Observable behaviour of a primal-decomposition solve: what the user's problem object and the message layer
   see.  Each recorded execution of the real solver under one schedule must be a behaviour of this specification.
   All numbers are exact integers chosen by the driver (see harness/pridec.cpp).                          *)
EXTENDS TraceLib

VARIABLES t, l, errs,
          phase,    \* "start", "terms" (terms being evaluated), "model" (model given to the master), "done"
          x,        \* current full master point
          fs, gs,   \* term -> rank that evaluated it in this iteration (-1: not yet)
          fsum, gsum, nit, rets, colls, ended, live
vars == <<t, l, errs, phase, x, fs, gs, fsum, gsum, nit, rets, colls, ended, live>>

M == Traces[t].meta
E == Traces[t].ev[l]
Terms == Dom(M.S)
XC == IF M.xi = <<>> THEN x ELSE [i \in 1 .. M.nc |-> x[M.xi[i] + 1]]   \* the coupling variables
Zero == [i \in 1 .. M.nc |-> 0]
None == [i \in Terms |-> -1]
Worker(r) == IF M.P = 1 THEN r = 0 ELSE r \in 1 .. (M.P - 1)

Init ==
  /\ t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ phase = "start" /\ x = <<>>
  /\ fs = None /\ gs = None /\ fsum = 0 /\ gsum = Zero /\ nit = 0 /\ rets = <<>> /\ ended = FALSE
  /\ colls = [r \in Dom(M.P) |-> <<>>] /\ live = TRUE

Master ==
  /\ E.e = "master"
  /\ errs' = errs \cup Rule(E.r = 0, "master-on-rank-0", l)
                  \cup Rule(E.inc = (phase # "start"), "first-solve-is-basecase", l)
                  \cup Rule(phase \in {"start", "model"}, "master-solved-out-of-turn", l)
                  \cup Rule(nit <= M.maxit, "iteration-limit", l)
  /\ x' = E.x /\ phase' = "terms" /\ fs' = None /\ gs' = None /\ fsum' = 0 /\ gsum' = Zero
  /\ nit' = nit + 1
  /\ UNCHANGED <<rets, colls, ended, live>>

EvalF ==
  /\ E.e = "f"
  /\ errs' = errs \cup Rule(Worker(E.r), "evaluated-by-an-evaluator", l)
                  \cup Rule(phase = "terms", "evaluation-outside-iteration", l)
                  \cup Rule(E.i \in Terms, "term-exists", l)
                  \cup Rule(E.i \in Terms => fs[E.i] = -1, "term-evaluated-once", l)
                  \cup Rule(E.x = XC, "evaluated-at-current-point", l)
  /\ fs' = IF E.i \in Terms THEN [fs EXCEPT ![E.i] = E.r] ELSE fs
  /\ fsum' = fsum + E.v
  /\ UNCHANGED <<phase, x, gs, gsum, nit, rets, colls, ended, live>>

EvalG ==
  /\ E.e = "g"
  /\ errs' = errs \cup Rule(Worker(E.r), "evaluated-by-an-evaluator", l)
                  \cup Rule(phase = "terms", "evaluation-outside-iteration", l)
                  \cup Rule(E.i \in Terms, "term-exists", l)
                  \cup Rule(E.i \in Terms => gs[E.i] = -1, "gradient-evaluated-once", l)
                  \cup Rule(E.i \in Terms /\ fs[E.i] # -1 => fs[E.i] = E.r, "one-evaluator-per-term", l)
                  \cup Rule(E.x = XC, "evaluated-at-current-point", l)
                  \cup Rule(Len(E.v) = M.nc /\ E.n = M.nc, "gradient-size", l)
  /\ gs' = IF E.i \in Terms THEN [gs EXCEPT ![E.i] = E.r] ELSE gs
  /\ gsum' = [j \in 1 .. M.nc |-> gsum[j] + IF j <= Len(E.v) THEN E.v[j] ELSE 0]
  /\ UNCHANGED <<phase, x, fs, fsum, nit, rets, colls, ended, live>>

Model ==
  /\ E.e = "approx"
  /\ errs' = errs \cup Rule(E.r = 0, "model-on-rank-0", l)
                  \cup Rule(phase = "terms", "model-out-of-turn", l)
                  \cup Rule(\A i \in Terms : fs[i] # -1 /\ gs[i] # -1, "every-term-evaluated", l)
                  \cup Rule(E.v * M.S = fsum, "exact-value", l)
                  \cup Rule(Len(E.g) = M.nc /\ [j \in 1 .. M.nc |-> E.g[j] * M.S] = gsum, "exact-gradient", l)
                  \cup Rule(E.x = XC, "model-centre", l)
                  \cup Rule(E.hok, "curvature-limits", l)
                  \cup Rule(E.S = M.S, "number-of-terms", l)
  /\ phase' = "model"
  /\ UNCHANGED <<x, fs, gs, fsum, gsum, nit, rets, colls, ended, live>>

Ret ==
  /\ E.e = "ret"
  /\ errs' = errs \cup Rule(E.r \notin DOMAIN rets /\ E.r \in Dom(M.P), "one-return-per-process", l)
                  \cup Rule(phase = "terms" /\ fs = None /\ gs = None, "return-after-a-completed-iteration", l)
                  \cup Rule(E.it = M.maxit - 1 /\ nit = M.maxit + 1, "iteration-limit-reached", l)
                  \cup Rule(\A r \in DOMAIN rets : rets[r] = E.it, "same-decision-to-stop", l)
  /\ rets' = IF E.r \in DOMAIN rets THEN rets ELSE rets @@ (E.r :> E.it)
  /\ UNCHANGED <<phase, x, fs, gs, fsum, gsum, nit, colls, ended, live>>

Coll ==
  /\ E.e = "coll"
  /\ LET n == Len(colls[E.r]) + 1 IN
     errs' = errs \cup Rule(\A r \in Dom(M.P) : Len(colls[r]) >= n => colls[r][n] = E.s, "same-collectives", l)
  /\ colls' = [colls EXCEPT ![E.r] = Append(@, E.s)]
  /\ UNCHANGED <<phase, x, fs, gs, fsum, gsum, nit, rets, ended, live>>

End ==
  /\ E.e = "end"
  /\ errs' = errs \cup Rule(E.ok, "terminates:" \o E.why, l)
                  \cup Rule(E.ok => DOMAIN rets = Dom(M.P), "every-process-returns", l)
                  \cup Rule(E.ok => E.lm = 0 /\ E.lr = 0, "no-message-left", l)
                  \cup Rule(E.dang = 0, "buffers-live-until-complete", l)
                  \cup Rule(E.ok => \A r, q \in Dom(M.P) : Len(colls[r]) = Len(colls[q]), "same-number-of-collectives", l)
  /\ ended' = TRUE
  /\ UNCHANGED <<phase, x, fs, gs, fsum, gsum, nit, rets, colls, live>>

Died ==
  /\ E.e \in {"assert", "crash"}
  /\ errs' = errs \cup {"process-died@" \o ToString(l)} /\ ended' = TRUE
  /\ UNCHANGED <<phase, x, fs, gs, fsum, gsum, nit, rets, colls, live>>

Message ==   \* point-to-point traffic: the content of the protocol is PriDecMsg's business
  /\ E.e \in {"send", "isend", "irecv", "recv", "sent", "rcvd"}
  /\ UNCHANGED <<errs, phase, x, fs, gs, fsum, gsum, nit, rets, colls, ended, live>>

Step == /\ l <= Len(Traces[t].ev)
        /\ (Master \/ EvalF \/ EvalG \/ Model \/ Ret \/ Coll \/ End \/ Died \/ Message)
        /\ l' = l + 1 /\ t' = t
Finish == /\ l = Len(Traces[t].ev) + 1 /\ live
          /\ live' = FALSE
          /\ Report(t, errs \cup Rule(ended, "trace-ends", l))
          /\ UNCHANGED <<t, l, errs, phase, x, fs, gs, fsum, gsum, nit, rets, colls, ended>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
