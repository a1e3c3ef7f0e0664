-------------------------------- MODULE RegMC --------------------------------
(* The factorization loop around the regularization state machine, for all sequences of outcomes. *)
EXTENDS Reg, TLC
CONSTANTS Dual, Dwd, NReq, MaxRef, NSys, Broken
VARIABLES s, ph, nf, tried, res, dc, nsys, conf
vars == <<s, ph, nf, tried, res, dc, nsys, conf>>
\* in units of a factor 10 (km = 1/10)
O == [wmin |-> -3, wmax |-> 3, w0 |-> -2, km |-> 0 - 1, kp |-> 1, kpb |-> 2, cmin |-> -6, tencp |-> 1]
Five == 5
Init == s = Fresh /\ ph = "idle" /\ nf = 0 /\ tried = {} /\ res = "none" /\ dc = -4 /\ nsys = 0 /\ conf = <<>>
Here(t) == <<t.w, t.c>>
NewMatrix ==
  /\ ph = "idle" /\ nsys < NSys /\ nsys' = nsys + 1
  /\ dc' \in {dc, IF dc > -5 THEN dc - 1 ELSE dc}
  /\ LET r == Initial(Dual, O, Five, s, dc') IN
       /\ s' = r.s /\ nf' = 0 /\ tried' = {} 
       /\ IF r.ok THEN ph' = "built" /\ res' = "none" ELSE ph' = "idle" /\ res' = "failed"
  \* what a successful trial of the previous matrix showed
  /\ conf' = IF ph = "idle" /\ res = "accepted" THEN Append(conf, s.test) ELSE conf
Correction(forced, n) ==
  LET r == IF forced THEN Wrong(Dual, O, Five, s, dc) ELSE Correct(Dual, NReq, n, O, Five, s, dc)
      t == IF Broken = "keep" THEN [r.s EXCEPT !.w = s.w] ELSE IF Broken = "early" /\ r.s.test = "c+w0" THEN [r.s EXCEPT !.jac = "yes"] ELSE r.s
  IN /\ s' = t /\ nf' = nf + 1
     /\ tried' = tried \cup {Here(s)}
     /\ conf' = IF r.s.test = s.test /\ r.s.nd # s.nd THEN Append(conf, s.test) ELSE conf
     /\ IF r.ok /\ nf + 1 < MaxRef THEN ph' = "built" /\ res' = "none" ELSE ph' = "idle" /\ res' = "failed"
Factorize ==
  /\ ph = "built" /\ UNCHANGED <<dc, nsys>>
  /\ \E n \in {-1, NReq, NReq + 1} :
       IF Accept(Dwd, NReq, n)
       THEN /\ ph' = "idle" /\ res' = "accepted" /\ UNCHANGED <<s, nf, tried, conf>>
       ELSE Correction(FALSE, n)
\* inertia free: the direction has negative curvature
NegativeCurvature == Dwd /\ ph = "idle" /\ res = "accepted" /\ nf < MaxRef /\ Correction(TRUE, NReq) /\ UNCHANGED <<dc, nsys>>
Next == NewMatrix \/ Factorize \/ NegativeCurvature
Spec == Init /\ [][Next]_vars /\ WF_vars(Factorize)

InRange == ph = "built" => (s.w = Zero \/ (s.w >= O.wmin /\ s.w <= O.wmax)) /\ (s.c = Zero \/ s.c <= O.wmax)
\* every refactorization is of another matrix
Progress == ph = "built" => Here(s) \notin tried
\* a new matrix starts without regularization unless degeneracy is established
StartsFromZero == ph = "built" /\ nf = 0 => (s.hess = "yes" <=> s.w # Zero) /\ (s.jac = "yes" <=> s.c # Zero)
\* degeneracy is concluded only after three confirmations
Confirmed == (s.hess = "yes" \/ s.jac = "yes") => Len(conf) >= NumDegenMax \/ s.nd >= NumDegenMax
Bounded == nf <= MaxRef
\* a state the regularization cannot proceed from does not exist: the test status fits the regularizations in use
Fits == ph = "built" => /\ s.test = "c0w+" => s.w # Zero
                        /\ s.test = "c+w0" => s.c # Zero
                        /\ s.test = "c+w+" => s.w # Zero /\ s.c # Zero
\* an established degeneracy is only taken back for a new trial
Verdict == [][(s.hess = "yes" => s'.hess # "no") /\ (s.jac = "yes" => s'.jac # "no")]_vars
EndsEventually == [](ph = "built" => <>(ph = "idle"))
View == <<s, ph, nf, tried, res, dc, nsys, IF Len(conf) > 3 THEN 3 ELSE Len(conf)>>
=============================================================================
