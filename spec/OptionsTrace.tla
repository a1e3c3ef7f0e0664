----------------------------- MODULE OptionsTrace ----------------------------
(* Option scripts executed on the real option classes.  meta: kind ("n" or "p"), file (assignments of the option file in
   order), ops (run time calls).  ev: init, then one event per call with the options whose value or user-defined flag
   changed.  The effect of every call must be the one the specification computes.                                     *)
EXTENDS TraceLib, Options
TabFile == ndJsonDeserialize(IOEnv.TABLE_FILE)
Tab == TabFile[1]
Zero == Tab.zero
TT(kind) == IF kind = "n" THEN Tab.n ELSE Tab.p
VARIABLES t, l, errs, st, seen, live
\* seen: values (v) and user-defined options (u) as last reported by the implementation, relative to the documented defaults
vars == <<t, l, errs, st, seen, live>>
M == Traces[t].meta
E == Traces[t].ev[l]
T == TT(M.kind)
RECURSIVE FileOps(_, _, _)
FileOps(TB, s, q) == IF q = <<>> THEN s ELSE
   FileOps(TB, LET a == q[1] IN IF a.n \in DOMAIN TB THEN Assign(TB, s, a.n, TB[a.n].k, (IF TB[a.n].k = "n" THEN a.num ELSE IF TB[a.n].k = "i" THEN a.int ELSE IF TB[a.n].range = <<>> THEN a.s ELSE a.low), TRUE) ELSE s, Tail(q))
Init == /\ t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ live = TRUE
        /\ st = Initial(TT(Traces[t].meta.kind)) /\ seen = [v |-> Initial(TT(Traces[t].meta.kind)).val, u |-> {}]
Names(d) == {d[i][1] : i \in 1 .. Len(d)}
RECURSIVE UpdV(_, _)
UpdV(s, d) == IF d = <<>> THEN s ELSE UpdV([s EXCEPT ![d[1][1]] = d[1][2]], Tail(d))
RECURSIVE UpdU(_, _)
UpdU(s, d) == IF d = <<>> THEN s ELSE UpdU(IF d[1][3] THEN s \cup {d[1][1]} ELSE s \ {d[1][1]}, Tail(d))
After(s2) ==
  LET v3 == UpdV(seen.v, E.diff)
      u3 == UpdU(seen.u, E.diff)
      ch == {n \in DOMAIN T : s2.val[n] # st.val[n]} IN
  /\ st' = s2 /\ seen' = [v |-> v3, u |-> u3]
  /\ errs' = errs \cup (IF v3 = s2.val THEN {} ELSE UNION {Rule(v3[n] = s2.val[n], "value:" \o n, l) : n \in DOMAIN T})
                  \cup (IF u3 = s2.file \cup s2.rt THEN {} ELSE UNION {Rule((n \in u3) = UD(s2, n), "user-defined:" \o n, l) : n \in DOMAIN T})
                  \cup Rule(E.unk = 0, "unknown-option-is-not-user-defined", l)
                  \cup Rule(Consistent(s2, M.kind, Zero) /\ \A n \in ch : Valid(T, n, T[n].k, s2.val[n]), "specification-error", l)
Start == /\ E.e = "init"
         /\ After(Ensure(FileOps(T, Ensure(Initial(T), M.kind, Zero), M.file), M.kind, Zero))
Op == /\ E.e = "op"
      /\ LET o == M.ops[l - 1] IN
         After(IF o.k \in {"log", "print"} THEN st
               ELSE LET v == IF o.k = "s" THEN (IF o.n \in DOMAIN T /\ T[o.n].k = "s" /\ T[o.n].range = <<>> THEN o.s ELSE o.low) ELSE o.v
                    IN Set(T, st, M.kind, Zero, o.n, o.k, v, o.ff))
End == E.e = "end" /\ UNCHANGED <<errs, st, seen>>
Died == /\ E.e \in {"assert", "crash"}
        /\ errs' = errs \cup {"process-died@" \o ToString(l)} /\ UNCHANGED <<st, seen>>
Step == l <= Len(Traces[t].ev) /\ (Start \/ Op \/ End \/ Died) /\ l' = l + 1 /\ t' = t /\ UNCHANGED live
Finish == /\ l = Len(Traces[t].ev) + 1 /\ live /\ live' = FALSE
          /\ Report(t, errs \cup Rule(Len(Traces[t].ev) >= Len(M.ops) + 1, "trace-ends", l))
          /\ UNCHANGED <<t, l, errs, st, seen>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
