------------------------------ MODULE TraceRun ------------------------------
(* The trace machine shared by every conformance check whose events are      *)
(* judged one at a time.  A module that EXTENDS it defines Verdict(e), the   *)
(* set of names of the clauses of the specification that event e violates.   *)
(* Verdicts are total: a violated clause is reported and the walk goes on,   *)
(* so one defect never hides another.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Dec

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l      \* events consumed so far

TraceInit == l = 0

\* as one string: TLC would break a long tuple over lines
Report(i, cl) == cl = {} \/ PrintT(ToString(<<"BAD", i, cl>>))

Done == l = Len(TraceLog) => PrintT(<<"DONE", l>>)

\* the names of the clauses that do not hold, from a set of <<name, holds>>
Failing(clauses) == {c[1] : c \in {c \in clauses : ~c[2]}}

Has(e, f) == f \in DOMAIN e
=============================================================================
