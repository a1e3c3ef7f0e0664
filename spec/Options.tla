------------------------------- MODULE Options -------------------------------
(* Solver options: values, precedence of sources, ranges and consistency rules.
   T is the table of documented options: name -> [k, d, lo, hi, range]; k is "n" (numeric), "i" (integer), "s" (text).
   Numeric values are positions in an ordered pool of numbers (Zero is the position of 0), so only their order matters.
   A state is [val |-> name -> value, file |-> names set by the file, rt |-> names set at run time].          *)
EXTENDS Integers, Sequences, FiniteSets

SetToSeqOf(r) == {r[i] : i \in 1 .. Len(r)}

Valid(T, n, k, v) ==
  /\ n \in DOMAIN T
  /\ T[n].k = k
  /\ IF k = "s" THEN T[n].range = <<>> \/ v \in SetToSeqOf(T[n].range) ELSE v >= T[n].lo /\ v <= T[n].hi

UD(st, n) == n \in st.file \cup st.rt
Put(st, n, v) == IF n \in DOMAIN st.val THEN [st EXCEPT !.val[n] = v] ELSE st
V(st, n) == st.val[n]

Checkpoint == {"checkpoint_save", "checkpoint_save_every_N_iter", "checkpoint_file", "checkpoint_load_on_start"}

\* ---- the documented consistency rules, applied in this order -----------------------------------------------------
Raise(st, n) == IF n \in DOMAIN st.val /\ V(st, n) < V(st, "tolerance") /\ UD(st, n) THEN Put(st, n, V(st, "tolerance")) ELSE st
R1(st) == Raise(Raise(Raise(Raise(st, "acceptable_tolerance"), "dual_tol"), "cons_tol"), "comp_tol")
R2(st) == IF V(st, "Hessian") = "quasinewton_approx" /\ V(st, "KKTLinsys") \in {"xycyd", "xdycyd", "full", "normaleqn"} /\ UD(st, "Hessian")
          THEN Put(st, "KKTLinsys", "auto") ELSE st
R3(st) == IF V(st, "Hessian") = "analytical_exact" THEN Put(st, "duals_update_type", "linear") ELSE st
R4(st) == IF \/ V(st, "KKTLinsys") = "full" /\ V(st, "linear_solver_sparse") \notin {"resolve", "pardiso", "strumpack", "auto"}
             \/ V(st, "KKTLinsys") = "condensed" /\ V(st, "linear_solver_sparse") \notin {"cusolver-chol", "auto"}
             \/ V(st, "linear_solver_sparse") \in {"resolve", "cusolver-chol"}        \* no CUDA in this build
          THEN Put(st, "linear_solver_sparse", "auto") ELSE st
R5(st) == IF "compute_mode" \in DOMAIN st.val THEN Put(st, "compute_mode", "cpu") ELSE st   \* no GPU in this build
R6(st) == IF V(st, "fact_acceptor") = "inertia_correction" /\ (V(st, "KKTLinsys") = "full" \/ V(st, "linear_solver_sparse") = "strumpack")
          THEN Put(st, "fact_acceptor", "inertia_free") ELSE st
R7(st, Zero) == IF V(st, "moving_lim_abs") # Zero /\ V(st, "moving_lim_rel") # Zero THEN Put(st, "moving_lim_rel", Zero) ELSE st
\* checkpointing is not available in this build: its options are ignored and count as not set
R8(st) == [st EXCEPT !.file = @ \ Checkpoint, !.rt = @ \ Checkpoint]

Ensure(st, kind, Zero) ==
  IF kind = "p" THEN Raise(st, "acceptable_tolerance")
  ELSE R8(R7(R6(R5(R4(R3(R2(R1(st)))))), Zero))

Initial(T) == [val |-> [n \in DOMAIN T |-> T[n].d], file |-> {}, rt |-> {}]

\* one valid or invalid assignment, without the consistency rules
Assign(T, st, n, k, v, fromFile) ==
  IF Valid(T, n, k, v) /\ (fromFile \/ n \notin st.file)
  THEN [val |-> [st.val EXCEPT ![n] = v],
        file |-> IF fromFile THEN st.file \cup {n} ELSE st.file,
        rt |-> IF fromFile THEN st.rt ELSE st.rt \cup {n}]
  ELSE st

Set(T, st, kind, Zero, n, k, v, fromFile) == Ensure(Assign(T, st, n, k, v, fromFile), kind, Zero)

\* ---- what "consistent" means, independently of how it is reached ----------------------------------------------------
Consistent(st, kind, Zero) ==
  /\ \A n \in DOMAIN st.val \cap {"acceptable_tolerance", "dual_tol", "cons_tol", "comp_tol"} : UD(st, n) => V(st, n) >= V(st, "tolerance")
  /\ kind = "n" =>
     /\ V(st, "Hessian") = "analytical_exact" => V(st, "duals_update_type") = "linear"
     /\ (V(st, "Hessian") = "quasinewton_approx" /\ UD(st, "Hessian")) => V(st, "KKTLinsys") \in {"auto", "condensed"}
     /\ V(st, "KKTLinsys") = "full" => V(st, "linear_solver_sparse") \in {"auto", "pardiso", "strumpack"} /\ V(st, "fact_acceptor") = "inertia_free"
     /\ V(st, "KKTLinsys") = "condensed" => V(st, "linear_solver_sparse") = "auto"
     /\ V(st, "linear_solver_sparse") = "strumpack" => V(st, "fact_acceptor") = "inertia_free"
     /\ V(st, "linear_solver_sparse") \notin {"resolve", "cusolver-chol"}
     /\ V(st, "moving_lim_abs") = Zero \/ V(st, "moving_lim_rel") = Zero
InRange(T, st) == \A n \in DOMAIN T : Valid(T, n, T[n].k, st.val[n])
=============================================================================
