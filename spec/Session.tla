------------------------------- MODULE Session -------------------------------
(* Solver objects and what a solve may depend on (P07).

   A solver object carries options, the problem it was given, and working parts that a solve leaves dirty: the filter, the
   barrier parameter, the quasi-Newton memory, the problem transformations, counters, work space.  A solve may end in any
   way at any iteration (converged, stopped, user error).  What the user observes of a solve is a function of the effective
   configuration and of whatever the working parts hold when the first iteration begins: it is reproducible exactly when
   every part is brought back to a state that does not depend on history.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Objs,      \* solver objects (a fresh one per object)
          Opts,      \* values of the options
          Probs,     \* problem data
          ResetParts,\* parts that start-up resets
          MaxSolves
Parts == {"filter", "mu", "memory", "transforms", "counters", "workspace"}
VARIABLES opt, prob, part, phase, seen, nsol, exists
vars == <<opt, prob, part, phase, seen, nsol, exists>>

Clean == [p \in Parts |-> <<0, 0>>]
\* work space handed out by the allocator holds anything
Garbage == {<<-1, 1>>, <<-1, 2>>}

Init ==
  /\ opt = [o \in Objs |-> 1] /\ prob = [o \in Objs |-> 1]
  /\ part = [o \in Objs |-> Clean] /\ phase = [o \in Objs |-> "idle"]
  /\ seen = {} /\ nsol = 0 /\ exists = {}

New(o) ==
  /\ o \notin exists /\ exists' = exists \cup {o}
  /\ \E g \in Garbage : part' = [part EXCEPT ![o] = [Clean EXCEPT !["workspace"] = g]]
  /\ UNCHANGED <<opt, prob, phase, seen, nsol>>
SetOption(o) == \E v \in Opts : /\ o \in exists /\ phase[o] = "idle" /\ opt[o] # v
                                /\ opt' = [opt EXCEPT ![o] = v] /\ UNCHANGED <<prob, part, phase, seen, nsol, exists>>
SetProblem(o) == \E v \in Probs : /\ o \in exists /\ phase[o] = "idle" /\ prob[o] # v
                                  /\ prob' = [prob EXCEPT ![o] = v] /\ UNCHANGED <<opt, part, phase, seen, nsol, exists>>
Start(o) ==
  /\ o \in exists /\ phase[o] = "idle" /\ nsol < MaxSolves
  /\ part' = [part EXCEPT ![o] = [p \in Parts |-> IF p \in ResetParts THEN <<0, 0>> ELSE part[o][p]]]
  /\ phase' = [phase EXCEPT ![o] = "start"] /\ nsol' = nsol + 1
  /\ UNCHANGED <<opt, prob, seen, exists>>
\* the observation is settled by the configuration and by what the parts hold now
Iterate(o) ==
  /\ phase[o] = "start"
  /\ seen' = seen \cup {<<opt[o], prob[o], part[o]>>}
  /\ part' = [part EXCEPT ![o] = [p \in Parts |-> <<opt[o], prob[o]>>]]
  /\ phase' = [phase EXCEPT ![o] = "iter"] /\ UNCHANGED <<opt, prob, nsol, exists>>
\* ending early leaves some parts as they were
End(o) ==
  /\ phase[o] \in {"start", "iter"} /\ phase' = [phase EXCEPT ![o] = "idle"]
  /\ UNCHANGED <<opt, prob, part, seen, nsol, exists>>
Next == \E o \in Objs : New(o) \/ SetOption(o) \/ SetProblem(o) \/ Start(o) \/ Iterate(o) \/ End(o)
Spec == Init /\ [][Next]_vars

\* equal configurations are observed equal, whatever came before
Reproducible == \A a, b \in seen : a[1] = b[1] /\ a[2] = b[2] => a = b
=============================================================================
