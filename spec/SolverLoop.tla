----------------------------- MODULE SolverLoop -----------------------------
(* The contract of every iterative power flow method as a state machine: a  *)
(* point has a mismatch, an iteration moves to another point, the method     *)
(* stops at the first point whose mismatch is below tolerance or when the    *)
(* iteration limit is reached, and says which of the two happened.           *)
(* An outcome is [conv, it]; the mismatch of successive points is a sequence *)
(* ms, ms[1] the starting point; below(_) decides convergence at a point.    *)
EXTENDS Integers, Sequences

RECURSIVE Run(_, _, _, _)
Run(ms, max, below(_), i) ==
    IF below(ms[i + 1]) THEN [conv |-> TRUE, it |-> i]
    ELSE IF i = max THEN [conv |-> FALSE, it |-> i]
    ELSE Run(ms, max, below, i + 1)
Outcome(ms, max, below(_)) == Run(ms, max, below, 0)

\* outcomes o[k] for limits 0, 1, 2, ... of one and the same problem are consistent
Consistent(o) ==
    \A k \in DOMAIN o :
        /\ o[k].it <= k - 1
        /\ ~o[k].conv => o[k].it = k - 1
        /\ \A j \in DOMAIN o : (k < j /\ o[k].conv) => (o[j].conv /\ o[j].it = o[k].it)
        /\ \A j \in DOMAIN o : (k < j /\ ~o[k].conv /\ o[j].conv) => o[j].it > k - 1
=============================================================================
