--------------------------------- MODULE IPMMC ---------------------------------
(* Design model: one run of the algorithm with exact facts chosen freely by the environment. *)
EXTENDS IPM
CONSTANTS MaxIt, AccIt, R, Chain, Variant     \* ranks 0 .. R, schedule positions 0 .. Chain
VARIABLES pc, k, mu, F, cur, far, lo, alpha, tr, status, el, su, hist, resto, acs   \* acs: which iterates were acceptable
vars == <<pc, k, mu, F, cur, far, lo, alpha, tr, status, el, su, hist, resto, acs>>
Ranks == 0 .. R
ThMax == R - 1
ThMin == 1
MinAlpha == 3                  \* halvings until the step is too small
Pts == [th : Ranks, ph : Ranks]
Cfg == [maxit |-> MaxIt, accit |-> AccIt, rel |-> 0]
Init == /\ pc = "judge" /\ k = 0 /\ mu = 0 /\ F = {} /\ cur \in Pts /\ far = 0 /\ lo = 0 /\ alpha = 0
        /\ tr = [th |-> 0, ph |-> 0] /\ status = Go /\ el = 0 /\ su = 0 /\ hist = {} /\ resto = FALSE /\ acs = <<>>
\* the iterate is shown to the user and tested
Judge ==
  /\ pc = "judge"
  /\ \E s, a, e \in {0, 1}, stp \in {0, 1} :
       LET acc == IF Variant = "noreset" /\ a = 0 THEN lo ELSE NextLo(lo, a)
           v == Verdicts(k, [su |-> s, stop |-> stp, re |-> 0], Cfg, acc, acc) IN
       /\ (s = 1 => cur.th = 0)
       /\ su' = s /\ el' = e /\ lo' = acc /\ acs' = Append(acs, a)
       /\ IF v = {Go} THEN pc' = "mu" /\ UNCHANGED status ELSE pc' = "done" /\ status' \in v
  /\ UNCHANGED <<k, mu, F, cur, far, alpha, tr, hist, resto>>
Mu ==
  /\ pc = "mu"
  /\ IF el = 1 /\ mu < Chain
     THEN /\ mu' \in MuAfter(mu, <<el>>, Chain, FALSE) \cup (IF mu + 2 <= Chain THEN MuAfter(mu, <<el, 1>>, Chain, FALSE) ELSE {})
          /\ F' = IF Variant = "keepfilter" THEN F ELSE Renewed(ThMax)
          /\ hist' = IF Variant = "keepfilter" THEN hist ELSE {}
     ELSE UNCHANGED <<mu, F, hist>>
  /\ far' = IF cur.th >= ThMin THEN 1 ELSE 0
  /\ alpha' = 0 /\ pc' = "search"
  /\ UNCHANGED <<k, cur, lo, tr, status, el, su, resto, acs>>
Exact(p, sw) == [th |-> p.th, ph |-> p.ph, sw |-> sw, sdt |-> IF p.th < cur.th \/ (p.th = 0 /\ cur.th = 0) THEN 1 ELSE 0, sdp |-> IF p.ph < cur.ph THEN 1 ELSE 0,
                 arm |-> IF p.ph < cur.ph THEN 1 ELSE 0]
\* exact filter: "equal or worse in both" is dominated
Dom(G, th, ph) == \E e \in G : th >= e.th /\ ph >= e.ph
AccX(r) == Rule18(r, far) = 1 /\ (Variant = "nofilter" \/ ~Dom(F, r.th, r.ph))
Trial ==
  /\ pc = "search" /\ alpha <= MinAlpha
  /\ \E p \in Pts, sw \in {0, 1}, fail \in BOOLEAN :
       LET r == Exact(p, sw) IN
       IF fail THEN /\ pc' = "done" /\ status' = UserError /\ UNCHANGED <<k, F, cur, alpha, tr, hist>>
       ELSE IF AccX(r)
       THEN /\ cur' = p /\ tr' = p /\ k' = k + 1 /\ pc' = "judge"
            /\ F' = AfterAccept(F, r, far)
            /\ hist' = hist \cup (IF Augments(r, far) = 1 THEN {p} ELSE {})
            /\ UNCHANGED <<alpha, status>>
       ELSE /\ alpha' = alpha + 1 /\ UNCHANGED <<k, F, cur, tr, hist, pc, status>>
  /\ UNCHANGED <<mu, far, lo, el, su, resto, acs>>
Resto ==
  /\ pc = "search" /\ alpha > MinAlpha
  /\ \/ \E p \in Pts : /\ p.th < cur.th /\ ~Dom(F, p.th, p.ph) /\ cur' = p /\ k' = k + 1 /\ pc' = "judge" /\ resto' = TRUE /\ UNCHANGED status
     \/ /\ status' \in {Infeasible, RestoFailed, SmallStep} /\ pc' = "done" /\ UNCHANGED <<cur, k, resto>>
  /\ UNCHANGED <<mu, F, far, lo, alpha, tr, el, su, hist, acs>>
Next == Judge \/ Mu \/ Trial \/ Resto
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- what the user relies on
TypeOK == mu \in 0 .. Chain /\ k \in 0 .. MaxIt + 1
StatusTruth == /\ status = Success => su = 1 /\ cur.th = 0
               /\ status = Acceptable2 => su = 0 /\ Len(acs) >= AccIt /\ \A i \in Len(acs) - AccIt + 1 .. Len(acs) : acs[i] = 1
               /\ status = MaxIter => k = MaxIt /\ su = 0
               /\ (pc = "done") <=> (status # Go)
LimitKept == k <= MaxIt
MuMonotone == [][mu' >= mu]_vars
FilterChangesOnlyAsDocumented == [][F' = F \/ (pc = "mu" /\ mu' # mu /\ F' = Renewed(ThMax)) \/ (pc = "search" /\ F \subseteq F' /\ Cardinality(F') <= Cardinality(F) + 1)]_vars
\* a point that entered the filter is never accepted again while the barrier parameter stays
NoReturn == [][(pc = "search" /\ pc' = "judge") => \A h \in hist : ~(cur'.th >= h.th /\ cur'.ph >= h.ph)]_vars
FilterRenewed == [][mu' # mu => F' = Renewed(ThMax)]_vars
Bounded == (mu > 0 /\ pc = "judge" /\ k > 0 /\ Variant = "ok") => \A e \in F : e.sure
MuThreshold == [][mu' # mu => el = 1]_vars
Terminates == <>(pc = "done")
=============================================================================
