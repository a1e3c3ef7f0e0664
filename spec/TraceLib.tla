------------------------------- MODULE TraceLib -------------------------------
(* Common part of the trace specifications.  A trace file has one JSON object per line:
   [id, meta, ev] with ev a sequence of event records (field e = event name).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Functions

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Has(r, f) == f \in DOMAIN r
\* rule names violated at event number l
Rule(cond, name, l) == IF cond THEN {} ELSE {name \o "@" \o ToString(l)}
Report(t, errs) == PrintT("@DONE " \o ToJson([t |-> t, e |-> errs]))
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Dom(S) == 0 .. (S - 1)
=============================================================================
