---------------------------------- MODULE IPM ----------------------------------
(* The filter interior-point algorithm of hiop as transition rules over abstract facts.

   Numbers do not appear: infeasibilities theta and barrier objectives phi are ranks, the barrier parameter is a
   position on the documented decreasing schedule, and the comparisons the algorithm makes are facts
       1 holds     0 does not hold     2 too close to call / not applicable
   Both the model (IPMMC: facts chosen freely) and the recorded runs (IPMTrace: facts recomputed from the user's problem
   by the observer) use the operators below.                                                                          *)
EXTENDS Integers, FiniteSets, Sequences

May(f) == f # 0
Must(f) == f = 1
Not3(f) == IF f = 2 THEN 2 ELSE 1 - f
And3(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = 1 /\ b = 1 THEN 1 ELSE 2
Or3(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE IF a = 0 /\ b = 0 THEN 0 ELSE 2
If3(c, a, b) == IF c = 1 THEN a ELSE IF c = 0 THEN b ELSE IF a = b THEN a ELSE 2
MinOf(a, b) == IF a < b THEN a ELSE b

\* ------------------------------------------------------------------ line-search filter
(* An entry forbids every pair that is not better in either measure.  sure = FALSE: the observer could not tell whether
   the entry was added.  Equal ranks: too close to call.                                                             *)
Entry(th, ph, sure) == [th |-> th, ph |-> ph, sure |-> sure]
InFilter(F, th, ph) ==
  IF \E e \in F : e.sure /\ th > e.th /\ ph > e.ph THEN 1
  ELSE IF \E e \in F : th >= e.th /\ ph >= e.ph THEN 2 ELSE 0
NoPhi == -1                       \* below every rank: the entry of a renewed filter bounds theta only
Renewed(thmax) == {Entry(thmax, NoPhi, TRUE)}

\* ------------------------------------------------------------------ acceptance of a trial point
(* r: facts of the trial point  sdt: theta sufficiently smaller, sdp: phi sufficiently smaller, sw: switching condition,
   arm: Armijo condition; far: the current infeasibility is not below theta_min                                       *)
Progress(r) == Or3(r.sdt, r.sdp)
Rule18(r, far) == If3(far, Progress(r), If3(r.sw, r.arm, Progress(r)))
Acceptable(r, far, F) == And3(Rule18(r, far), Not3(InFilter(F, r.th, r.ph)))
\* the accepted point enters the filter unless it is of the descent type (switching and Armijo)
Augments(r, far) == If3(far, Not3(And3(r.sw, r.arm)), Not3(r.sw))
AfterAccept(F, r, far) ==
  LET a == Augments(r, far) IN IF a = 0 THEN F ELSE F \cup {Entry(r.th, r.ph, a = 1)}

\* ------------------------------------------------------------------ barrier parameter
(* el[i]: the error of the barrier subproblem for the i-th parameter from the present one on is within its threshold;
   last: the schedule has no further value.  The set of parameters the next direction may use.                        *)
RECURSIVE MuAfter(_, _, _, _)
MuAfter(mu, el, last, once) ==
  IF el = <<>> \/ mu >= last THEN {mu}
  ELSE (IF May(el[1]) THEN (IF once THEN {mu + 1} ELSE MuAfter(mu + 1, Tail(el), last, once)) ELSE {})
       \cup (IF Must(el[1]) THEN {} ELSE {mu})

\* ------------------------------------------------------------------ termination test of an iterate
Go == -1000
Success == 0   RelTol == 1   Acceptable2 == 2   Infeasible == 5   MaxIter == 10   Stopped == 12
SmallStep == -4   StepFailed == -5   UserError == -15   RestoFailed == -16
Solved == {Success, RelTol, Acceptable2}
Tested == {Success, RelTol, Acceptable2, MaxIter, Stopped}       \* decided by the test of an iterate
\* counter of consecutive acceptable iterates: interval
NextLo(lo, ac) == IF Must(ac) THEN lo + 1 ELSE 0
NextHi(hi, ac) == IF May(ac) THEN hi + 1 ELSE 0
Verdicts(k, f, cfg, lo, hi) ==          \* lo, hi: the counter including this iterate
  IF f.stop = 1 THEN {Stopped}
  ELSE (IF May(f.su) THEN {Success} ELSE {})
       \cup (IF Must(f.su) THEN {}
             ELSE IF k >= cfg.maxit THEN {MaxIter}
             ELSE (IF cfg.rel = 1 /\ May(f.re) THEN {RelTol} ELSE {})
                  \cup (IF cfg.rel = 1 /\ Must(f.re) THEN {}
                        ELSE (IF hi >= cfg.accit THEN {Acceptable2} ELSE {})
                             \cup (IF lo >= cfg.accit THEN {} ELSE {Go})))
=============================================================================
