--------------------------------- MODULE Reg ---------------------------------
(* Inertia correction: the primal-dual regularization as a state machine (P11).

   Sizes of regularizations are kept as logarithms (integers), so increasing by a factor is an addition; Zero stands for no
   regularization.  o is a record of parameters [wmin, wmax, w0, km, kp, kpb] (logarithms as well), five the logarithm of
   10^5 in the same unit, tencp the increase factor of the dual regularization in the dual-first variant (10) and cmin its
   smallest value.

   State: hess, jac   what is known of structural degeneracy ("?", "no", "yes")
          nd          matrices so far that looked degenerate
          test        what the present trial tests: "none", "c0w0", "c+w0", "c0w+", "c+w+"
          w, wl       primal regularization: present, last successful
          c, cl       dual regularization                                                                              *)
EXTENDS Integers, Sequences, FiniteSets
Zero == -1000000000
Max2(a, b) == IF a > b THEN a ELSE b
NumDegenMax == 3
Fresh == [hess |-> "?", jac |-> "?", nd |-> 0, test |-> "none", w |-> Zero, wl |-> Zero, c |-> Zero, cl |-> Zero]

\* what the trial that just failed (or was accepted) says about degeneracy
Conclude(s) ==
  CASE s.test = "none" -> s
    [] s.test = "c0w0" -> [s EXCEPT !.hess = IF @ = "?" THEN "no" ELSE @, !.jac = IF @ = "?" THEN "no" ELSE @]
    [] s.test = "c+w0" -> LET n == IF s.jac = "?" THEN s.nd + 1 ELSE s.nd IN
         [s EXCEPT !.hess = IF @ = "?" THEN "no" ELSE @, !.nd = n, !.jac = IF @ = "?" /\ n >= NumDegenMax THEN "yes" ELSE @]
    [] s.test = "c0w+" -> LET n == IF s.hess = "?" THEN s.nd + 1 ELSE s.nd IN
         [s EXCEPT !.jac = IF @ = "?" THEN "no" ELSE @, !.nd = n, !.hess = IF @ = "?" /\ n >= NumDegenMax THEN "yes" ELSE @]
    [] s.test = "c+w+" -> LET n == s.nd + 1 IN
         [s EXCEPT !.nd = n, !.hess = IF n >= NumDegenMax THEN "yes" ELSE @, !.jac = IF n >= NumDegenMax THEN "yes" ELSE @]

\* the next larger primal regularization
MoreW(o, five, s) ==
  LET w == IF s.w = Zero THEN IF s.wl = Zero THEN o.w0 ELSE Max2(o.wmin, s.wl + o.km)
           ELSE IF s.wl = Zero \/ s.wl + five < s.w THEN s.w + o.kpb ELSE s.w + o.kp
  IN IF w > o.wmax THEN [ok |-> FALSE, s |-> [s EXCEPT !.w = w, !.wl = Zero]]
     ELSE [ok |-> TRUE, s |-> [s EXCEPT !.w = w]]
\* dual-first: the next larger dual regularization
MoreC(o, five, s, dc) ==
  LET c == IF s.c = Zero THEN IF s.cl = Zero THEN Max2(o.cmin, dc) ELSE Max2(o.cmin, s.cl + o.km)
           ELSE IF s.cl = Zero \/ s.cl + five < s.c THEN s.c + o.kpb ELSE s.c + o.tencp
  IN IF c > o.wmax THEN [ok |-> FALSE, s |-> [s EXCEPT !.c = c, !.cl = Zero]]
     ELSE [ok |-> TRUE, s |-> [s EXCEPT !.c = c]]

Ok(s) == [ok |-> TRUE, s |-> s]
Start(s) ==
  LET a == Conclude(s)
      b == [a EXCEPT !.wl = IF a.w # Zero THEN a.w ELSE @, !.cl = IF a.c # Zero THEN a.c ELSE @]
  IN [b EXCEPT !.test = IF b.hess = "?" \/ b.jac = "?" THEN "c0w0" ELSE "none"]

\* ---- primal first: a new matrix, wrong inertia, singular matrix (dc: the dual regularization for the present mu)
PInitial(o, five, s, dc) ==
  LET b == [Start(s) EXCEPT !.c = IF Start(s).jac = "yes" THEN dc ELSE Zero, !.w = Zero]
  IN IF b.hess = "yes" THEN MoreW(o, five, b) ELSE Ok(b)
PWrong(o, five, s, dc) ==
  LET a == Conclude(s) r == MoreW(o, five, a) IN
  IF ~r.ok /\ a.c = Zero
  THEN MoreW(o, five, [r.s EXCEPT !.w = Zero, !.c = dc, !.test = "none", !.hess = IF @ = "yes" THEN "?" ELSE @])
  ELSE r
PSingular(o, five, s, dc) ==
  IF s.hess = "?" \/ s.jac = "?"
  THEN CASE s.test = "c0w0" ->
              IF s.jac = "?" THEN Ok([s EXCEPT !.c = dc, !.test = "c+w0"])
              ELSE LET r == MoreW(o, five, s) IN IF r.ok THEN Ok([r.s EXCEPT !.test = "c0w+"]) ELSE r
         [] s.test = "c+w0" /\ s.w = Zero ->
              LET r == MoreW(o, five, [s EXCEPT !.c = Zero]) IN IF r.ok THEN Ok([r.s EXCEPT !.test = "c0w+"]) ELSE r
         [] s.test = "c0w+" -> LET r == MoreW(o, five, [s EXCEPT !.c = dc]) IN IF r.ok THEN Ok([r.s EXCEPT !.test = "c+w+"]) ELSE r
         \* both regularizations are in use (also after a correction of the inertia): as for wrong inertia
         [] s.test = "c+w0" -> LET r == MoreW(o, five, s) IN IF r.ok THEN Ok([r.s EXCEPT !.test = "c+w+"]) ELSE r
         [] OTHER -> MoreW(o, five, s)
  ELSE IF s.c # Zero THEN MoreW(o, five, s) ELSE Ok([s EXCEPT !.c = dc])

\* ---- dual first
DInitial(o, five, s, dc) ==
  LET b == [Start(s) EXCEPT !.c = Zero, !.w = Zero]
      r == IF b.jac = "yes" THEN MoreC(o, five, b, dc) ELSE Ok(b)
  IN IF r.ok /\ b.hess = "yes" THEN MoreW(o, five, r.s) ELSE r
DWrong(o, five, s, dc) ==
  LET a == Conclude(s) r == MoreC(o, five, a, dc) IN
  IF ~r.ok /\ a.w = Zero
  THEN LET p == MoreW(o, five, [r.s EXCEPT !.c = Zero]) IN
       IF p.ok THEN MoreC(o, five, [p.s EXCEPT !.test = "none", !.jac = IF @ = "yes" THEN "?" ELSE @], dc) ELSE p
  ELSE r

Initial(dual, o, five, s, dc) == IF dual THEN DInitial(o, five, s, dc) ELSE PInitial(o, five, s, dc)
Wrong(dual, o, five, s, dc) == IF dual THEN DWrong(o, five, s, dc) ELSE PWrong(o, five, s, dc)
Singular(dual, o, five, s, dc) == IF dual THEN DWrong(o, five, s, dc) ELSE PSingular(o, five, s, dc)

\* ---- acceptance of a factorization with n negative eigenvalues (negative: singular)
Accept(dwd, nreq, n) == IF dwd THEN n >= 0 ELSE n = nreq
Correct(dual, nreq, n, o, five, s, dc) ==
  IF nreq > 0 /\ n < 0 THEN Singular(dual, o, five, s, dc) ELSE Wrong(dual, o, five, s, dc)
MaxRefact == 11
=============================================================================
