-------------------------------- MODULE PriDec --------------------------------
(* The asynchronous master/worker protocol of hiopAlgPrimalDecomposition::run (and run_local: only the content of
   the reply differs).  Rank 0 is the master.  Every MPI step that takes time is an action of its own:
   a posted nonblocking send leaves its buffer later (CopyOut), messages travel in FIFO channels (Arrive),
   polling sees completions in any order.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS P, S, MaxIt,          \* processes, recourse terms, outer iterations
          Variant               \* "ok"; "earlyend", "nolast": deliberately broken variants (must be refuted)

Workers == 1 .. (P - 1)
Terms   == 0 .. (S - 1)
END     == -1
ASSUME S >= P - 1

VARIABLES
  it,        \* master's outer iteration
  mpc,       \* master's control: bcast, init, poll, endsig, drain, approx, stop, done
  idx,       \* next term to hand out
  nsend,     \* next worker to get its first term / its end signal
  fin,       \* fin[r]: worker r's last result has been received
  last,      \* the last-loop flag
  idxbuf,    \* idxbuf[r]: content of the index send buffer of worker r
  pend,      \* pend[r]: a nonblocking index send to r has not left its buffer yet
  toW,       \* toW[r]: indices on their way to worker r
  rpost,     \* rpost[r]: a receive of r's result is posted
  toM,       \* toM[r]: results of worker r on their way to the master (after they left the buffer)
  rdone,     \* rdone[r]: received result not yet noticed by the master (sequence of at most one)
  wpc,       \* worker control: bcast, first, eval, reply, poll, stop, done
  wit,       \* worker's outer iteration
  wcur,      \* term the worker evaluates
  evals,     \* evals[t]: evaluations of term t in this outer iteration
  acc,       \* acc[t]: how often the master added term t
  xcur,      \* version of the master point at the master
  xw,        \* version known by the worker
  bad        \* set of protocol violations that happened

vars == <<it, mpc, idx, nsend, fin, last, idxbuf, pend, toW, rpost, toM, rdone, wpc, wit, wcur, evals, acc, xcur, xw, bad>>

Init ==
  /\ it = 0 /\ mpc = "bcast" /\ idx = 0 /\ nsend = 1 /\ last = FALSE
  /\ fin = [r \in Workers |-> FALSE] /\ idxbuf = [r \in Workers |-> 0] /\ pend = [r \in Workers |-> FALSE]
  /\ toW = [r \in Workers |-> <<>>] /\ rpost = [r \in Workers |-> FALSE] /\ toM = [r \in Workers |-> <<>>]
  /\ rdone = [r \in Workers |-> <<>>]
  /\ wpc = [r \in Workers |-> "bcast"] /\ wit = [r \in Workers |-> 0] /\ wcur = [r \in Workers |-> 0]
  /\ evals = [t \in Terms |-> 0] /\ acc = [t \in Terms |-> 0]
  /\ xcur = 1 /\ xw = [r \in Workers |-> 0] /\ bad = {}

(* ---- the two broadcasts of an iteration are rendezvous points of the master with each worker; a worker may be late *)
MBcast ==
  /\ mpc = "bcast" /\ mpc' = "init" /\ idx' = 0 /\ nsend' = 1 /\ last' = FALSE
  /\ fin' = [r \in Workers |-> FALSE] /\ evals' = [t \in Terms |-> 0] /\ acc' = [t \in Terms |-> 0]
  /\ UNCHANGED <<it, idxbuf, pend, toW, rpost, toM, rdone, wpc, wit, wcur, xcur, xw, bad>>
\* the worker can receive the broadcast as soon as the master is past it
WBcast(r) ==
  /\ wpc[r] = "bcast" /\ wit[r] = it /\ mpc \notin {"bcast"}
  /\ wpc' = [wpc EXCEPT ![r] = "first"] /\ xw' = [xw EXCEPT ![r] = xcur]
  /\ UNCHANGED <<it, mpc, idx, nsend, fin, last, idxbuf, pend, toW, rpost, toM, rdone, wit, wcur, evals, acc, xcur, bad>>

(* ---- first round: blocking sends (content copied), then receives posted *)
MFirst ==
  /\ mpc = "init" /\ nsend <= P - 1
  /\ toW' = [toW EXCEPT ![nsend] = Append(@, idx)] /\ rpost' = [rpost EXCEPT ![nsend] = TRUE]
  /\ idx' = idx + 1 /\ nsend' = nsend + 1
  /\ mpc' = IF nsend = P - 1 THEN "poll" ELSE "init"
  /\ UNCHANGED <<it, fin, last, idxbuf, pend, toM, rdone, wpc, wit, wcur, evals, acc, xcur, xw, bad>>

(* ---- polling: the master notices a completed receive *)
AllFin(f) == \A r \in Workers : f[r]
MTake(r) ==
  /\ mpc = "poll" /\ rdone[r] # <<>> /\ ~fin[r]
  /\ (idx >= S \/ ~pend[r])                     \* req_cont_idx[r]->wait()
  /\ acc' = [acc EXCEPT ![Head(rdone[r])] = @ + 1]
  /\ rdone' = [rdone EXCEPT ![r] = <<>>]
  /\ IF idx < S
     THEN /\ idxbuf' = [idxbuf EXCEPT ![r] = idx] /\ pend' = [pend EXCEPT ![r] = TRUE]
          /\ rpost' = [rpost EXCEPT ![r] = TRUE]
          /\ fin' = [fin EXCEPT ![r] = last] /\ UNCHANGED last
          /\ bad' = IF pend[r] THEN bad \cup {"buffer"} ELSE bad
     ELSE /\ fin' = [fin EXCEPT ![r] = TRUE] /\ last' = ~AllFin(fin')
          /\ rpost' = [rpost EXCEPT ![r] = FALSE]
          /\ UNCHANGED <<idxbuf, pend, bad>>
  /\ idx' = idx + 1
  /\ UNCHANGED <<it, mpc, nsend, toW, toM, wpc, wit, wcur, evals, xcur, xw>>
MPollEnd ==
  /\ mpc = "poll"
  /\ CASE Variant = "earlyend" -> idx >= S
       [] Variant = "nolast" -> idx > S
       [] OTHER -> idx > S /\ ~last
  /\ mpc' = "endsig" /\ nsend' = 1
  /\ UNCHANGED <<it, idx, fin, last, idxbuf, pend, toW, rpost, toM, rdone, wpc, wit, wcur, evals, acc, xcur, xw, bad>>
MEnd ==
  /\ mpc = "endsig" /\ nsend <= P - 1 /\ ~pend[nsend]
  /\ idxbuf' = [idxbuf EXCEPT ![nsend] = END] /\ pend' = [pend EXCEPT ![nsend] = TRUE]
  /\ bad' = IF pend[nsend] THEN bad \cup {"buffer"} ELSE bad
  /\ nsend' = nsend + 1 /\ mpc' = IF nsend = P - 1 THEN "drain" ELSE "endsig"
  /\ UNCHANGED <<it, idx, fin, last, toW, rpost, toM, rdone, wpc, wit, wcur, evals, acc, xcur, xw>>
MDrain ==
  /\ mpc = "drain" /\ \A r \in Workers : ~pend[r]
  /\ mpc' = "approx"
  /\ UNCHANGED <<it, idx, nsend, fin, last, idxbuf, pend, toW, rpost, toM, rdone, wpc, wit, wcur, evals, acc, xcur, xw, bad>>
\* regularized master problem solved: a new master point; then the end-signal broadcast
MSolve ==
  /\ mpc = "approx" /\ xcur' = xcur + 1 /\ mpc' = "stop"
  /\ UNCHANGED <<it, idx, nsend, fin, last, idxbuf, pend, toW, rpost, toM, rdone, wpc, wit, wcur, evals, acc, xw, bad>>
\* the second broadcast: nobody passes before the master does; the master may run ahead of the workers
MStop ==
  /\ mpc = "stop" /\ it' = it + 1 /\ mpc' = IF it + 1 = MaxIt THEN "done" ELSE "bcast"
  /\ \A r \in Workers : wpc[r] = "stop"          \* rendezvous (the strictest MPI implementation)
  /\ UNCHANGED <<idx, nsend, fin, last, idxbuf, pend, toW, rpost, toM, rdone, wpc, wit, wcur, evals, acc, xcur, xw, bad>>
WStop(r) ==
  /\ wpc[r] = "stop" /\ it > wit[r] /\ wit' = [wit EXCEPT ![r] = @ + 1]
  /\ wpc' = [wpc EXCEPT ![r] = IF wit[r] + 1 = MaxIt THEN "done" ELSE "bcast"]
  /\ UNCHANGED <<it, mpc, idx, nsend, fin, last, idxbuf, pend, toW, rpost, toM, rdone, wcur, evals, acc, xcur, xw, bad>>

(* ---- message transport *)
CopyOut(r) ==
  /\ pend[r] /\ toW' = [toW EXCEPT ![r] = Append(@, idxbuf[r])] /\ pend' = [pend EXCEPT ![r] = FALSE]
  /\ UNCHANGED <<it, mpc, idx, nsend, fin, last, idxbuf, rpost, toM, rdone, wpc, wit, wcur, evals, acc, xcur, xw, bad>>
Arrive(r) ==
  /\ toM[r] # <<>> /\ rpost[r] /\ rdone[r] = <<>>
  /\ rdone' = [rdone EXCEPT ![r] = <<Head(toM[r])>>] /\ toM' = [toM EXCEPT ![r] = Tail(@)]
  /\ rpost' = [rpost EXCEPT ![r] = FALSE]
  /\ UNCHANGED <<it, mpc, idx, nsend, fin, last, idxbuf, pend, toW, wpc, wit, wcur, evals, acc, xcur, xw, bad>>

(* ---- workers *)
WGet(r) ==
  /\ wpc[r] \in {"first", "poll"} /\ toW[r] # <<>>
  /\ toW' = [toW EXCEPT ![r] = Tail(@)] /\ wcur' = [wcur EXCEPT ![r] = Head(toW[r])]
  /\ wpc' = [wpc EXCEPT ![r] = IF Head(toW[r]) = END THEN "stop" ELSE "eval"]
  /\ UNCHANGED <<it, mpc, idx, nsend, fin, last, idxbuf, pend, rpost, toM, rdone, wit, evals, acc, xcur, xw, bad>>
WEval(r) ==
  /\ wpc[r] = "eval" /\ evals' = [evals EXCEPT ![wcur[r]] = @ + 1]
  /\ bad' = IF xw[r] # xcur THEN bad \cup {"stale"} ELSE bad
  /\ wpc' = [wpc EXCEPT ![r] = "reply"]
  /\ UNCHANGED <<it, mpc, idx, nsend, fin, last, idxbuf, pend, toW, rpost, toM, rdone, wit, wcur, acc, xcur, xw>>
WReply(r) ==
  /\ wpc[r] = "reply" /\ toM[r] = <<>>            \* rec_prob->wait(): previous reply has left the buffer
  /\ toM' = [toM EXCEPT ![r] = Append(@, wcur[r])] /\ wpc' = [wpc EXCEPT ![r] = "poll"]
  /\ UNCHANGED <<it, mpc, idx, nsend, fin, last, idxbuf, pend, toW, rpost, rdone, wit, wcur, evals, acc, xcur, xw, bad>>

Next == \/ MBcast \/ MFirst \/ MPollEnd \/ MEnd \/ MDrain \/ MSolve \/ MStop
        \/ \E r \in Workers : WBcast(r) \/ MTake(r) \/ WStop(r) \/ CopyOut(r) \/ Arrive(r) \/ WGet(r) \/ WEval(r) \/ WReply(r)
Terminated == mpc = "done" /\ \A r \in Workers : wpc[r] = "done"
Spec == Init /\ [][Next \/ (Terminated /\ UNCHANGED vars)]_vars /\ WF_vars(Next)

(* ---- properties *)
EvalAtMostOnce == \A t \in Terms : evals[t] <= 1 /\ acc[t] <= evals[t]
ExactSum == mpc \in {"approx", "stop"} => \A t \in Terms : evals[t] = 1 /\ acc[t] = 1
Clean == mpc \in {"approx", "stop", "done"} =>
            \A r \in Workers : toM[r] = <<>> /\ rdone[r] = <<>> /\ ~pend[r] /\ ~rpost[r]
NoLeft == Terminated => \A r \in Workers : toW[r] = <<>> /\ toM[r] = <<>>
NoBad == bad = {}
Lockstep == \A r \in Workers : wit[r] \in {it - 1, it}
Termination == <>Terminated
=============================================================================
