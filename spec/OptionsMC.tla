------------------------------ MODULE OptionsMC ------------------------------
(* All assignment histories over the interacting options: the rules lead to consistent states whatever the order,
   are idempotent, never leave a range, and respect the precedence of the sources.                             *)
EXTENDS Options, TLC
CONSTANTS Variant, Part, Files
Num(d, lo, hi) == [k |-> "n", d |-> d, lo |-> lo, hi |-> hi, range |-> <<>>]
Str(d, r) == [k |-> "s", d |-> d, lo |-> 0, hi |-> 0, range |-> r]
Zero == 0
T == [tolerance |-> Num(2, 1, 3), acceptable_tolerance |-> Num(3, 1, 4),
      moving_lim_abs |-> Num(0, 0, 1), moving_lim_rel |-> Num(0, 0, 1),
      Hessian |-> Str("quasinewton_approx", <<"quasinewton_approx", "analytical_exact">>),
      KKTLinsys |-> Str("auto", <<"auto", "xycyd", "full", "condensed">>),
      duals_update_type |-> Str("lsq", <<"lsq", "linear">>),
      linear_solver_sparse |-> Str("auto", <<"auto", "ma57", "strumpack", "resolve">>),
      fact_acceptor |-> Str("inertia_correction", <<"inertia_correction", "inertia_free">>)]
Names == IF Part = "num" THEN {"tolerance", "acceptable_tolerance", "moving_lim_abs", "moving_lim_rel"}
         ELSE {"Hessian", "KKTLinsys", "duals_update_type", "linear_solver_sparse", "fact_acceptor"}
Vals(n) == IF T[n].k = "n" THEN 0 .. 5 ELSE SetToSeqOf(T[n].range) \cup {"bad"}

VARIABLES st, last, adj, op
\* last: value of the last effective assignment of each option, adj: options touched by a consistency rule since
vars == <<st, last, adj, op>>
Ens(s) == IF Variant = "nomoving" THEN R8(R6(R5(R4(R3(R2(R1(s))))))) ELSE Ensure(s, "n", Zero)
Init == /\ st = Ens(Initial(T)) /\ last = [n \in DOMAIN T |-> T[n].d] /\ adj = {n \in DOMAIN T : st.val[n] # T[n].d} /\ op = <<>>
Next == \E n \in Names, ff \in Files : \E v \in Vals(n) :
          LET a == IF Variant = "noprec" THEN Assign(T, [st EXCEPT !.file = {}], n, T[n].k, v, ff) ELSE Assign(T, st, n, T[n].k, v, ff)
              s2 == Ens(a)
              eff == Valid(T, n, T[n].k, v) /\ (ff \/ n \notin st.file) IN
          /\ st' = s2
          /\ last' = IF eff THEN [last EXCEPT ![n] = v] ELSE last
          /\ adj' = (IF eff THEN adj \ {n} ELSE adj) \cup {m \in DOMAIN T : s2.val[m] # a.val[m]}
          /\ op' = <<n, v, ff>>
Spec == Init /\ [][Next]_vars
View == <<st, last, adj>>
IsConsistent == Consistent(st, "n", Zero)
IsIdempotent == Ens(st) = st
StaysInRange == InRange(T, st)
Precedence == \A n \in DOMAIN T : n \notin adj => st.val[n] = last[n]
\* an option fixed by the file is not changed by run time assignments, except by a consistency rule
FileWins == [][\A n \in Names : (n \in st.file /\ op' # <<>> /\ ~op'[3] /\ op'[1] = n) => st'.val[n] = st.val[n]]_vars
DefaultsUntouched == \A n \in DOMAIN T : (~UD(st, n) /\ n \notin adj) => st.val[n] = T[n].d
=============================================================================
