---------------------------- MODULE CallerTrace ----------------------------
EXTENDS TraceRun, Caller

RECURSIVE State(_, _)
State(steps, k) == IF k = 0 THEN Start ELSE Do(State(steps, k - 1), steps[k])
\* obs[k][i]: the contents of thing i after step k - 1; ans[i]: what thing i was when it came about, to its last digits
Hist(e) ==
    LET sts == TLCEval([k \in 1..(Len(e.steps) + 1) |-> State(e.steps, k - 1)])
        sized == Len(e.obs) = Len(e.steps) + 1 /\ \A k \in DOMAIN e.obs : Len(e.obs[k]) = Len(sts[k].val)
        \* the things of step k that differ from the step before without being written to
        moved == {k \in 2..Len(e.obs) : \E i \in DOMAIN sts[k - 1].val : sts[k].val[i] = sts[k - 1].val[i] /\ e.obs[k][i] # e.obs[k - 1][i]}
        \* the step that gave thing i; what it was called with decides what it gave
        last == sts[Len(sts)]
        births == [i \in DOMAIN last.val |-> CHOOSE k \in DOMAIN sts : i \in DOMAIN sts[k].val /\ (k = 1 \/ i \notin DOMAIN sts[k - 1].val)]
        born == [i \in DOMAIN last.val |-> sts[births[i]].val[i]]
    IN Failing({
    <<"Recorded", sized>>,
    <<"CallChangesNothing", sized => \A k \in moved : e.steps[k - 1].op # "call">>,
    <<"ResultsShareNothing", sized => \A k \in moved : e.steps[k - 1].op = "call">>,
    <<"SameCallSameAnswer", (sized /\ moved = {}) => \A i \in DOMAIN born : \A j \in DOMAIN born : (i > 3 /\ j > 3 /\ born[i] = born[j]) => e.ans[i] = e.ans[j]>>})

Verdict(e) == CASE e.ev = "history" -> Hist(e)
                [] e.ev = "pure" -> Failing({<<"CallChangesNothing", e.same>>, <<"ResultsShareNothing", e.shared = 0>>, <<"SameCallSameAnswer", e.again>>})
                [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
