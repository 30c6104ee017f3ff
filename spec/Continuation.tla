---------------------------- MODULE Continuation ----------------------------
(* Continuation power flow: tracing the solutions of                         *)
(*   base case + lam * (target case - base case)                             *)
(* from lam = 0.  What to do after each point: where the next step must be   *)
(* cut short, and when the trace is over.  The numbers are integers in the   *)
(* design model and decimals when recorded traces are judged.                *)
(*   stop   [kind |-> "nose" | "full" | "at", at |-> the loading asked for]  *)
EXTENDS Integers, Sequences, FiniteSets, Dec
Falls(lam, prev) == DLt(lam, prev)
\* the next step and whether it is taken in lam itself
Cut(stop, lam, prev, step, natural) ==
    IF stop.kind = "full" /\ Falls(lam, prev) /\ DLt(DSub(lam, step), 0) THEN [step |-> lam, natural |-> TRUE, cut |-> TRUE]
    ELSE IF stop.kind = "at" /\ DLt(stop.at, DAdd(lam, step)) THEN [step |-> DSub(stop.at, lam), natural |-> TRUE, cut |-> TRUE]
    ELSE [step |-> step, natural |-> natural, cut |-> FALSE]
Over(stop, lam, prev, eps) == CASE stop.kind = "nose" -> Falls(lam, prev)
                                [] stop.kind = "full" -> DLt(DAbs(lam), eps)
                                [] stop.kind = "at" -> Falls(lam, prev) \/ DLt(DAbs(DSub(stop.at, lam)), eps)
=============================================================================
