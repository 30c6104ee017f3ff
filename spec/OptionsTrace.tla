---------------------------- MODULE OptionsTrace ----------------------------
EXTENDS TraceRun, Options

\* after[k]: every vector as it is after step k (all of them, not only the new one)
RECURSIVE After(_, _)
After(steps, k) == IF k = 0 THEN <<>> ELSE Step(After(steps, k - 1), steps[k])
Same(v, w) == DOMAIN v = DOMAIN w /\ \A n \in DOMAIN w : v[n] = w[n]
Hist(e) ==
    LET want == [k \in DOMAIN e.steps |-> After(e.steps, k)] IN Failing({
    <<"EveryDocumentedOption", \A k \in DOMAIN e.obs : \A i \in DOMAIN e.obs[k] : DOMAIN Defaults \subseteq DOMAIN e.obs[k][i]>>,
    <<"NewVectorAsAsked", \A k \in DOMAIN e.obs : e.steps[k].op # "set" => Same(e.obs[k][Len(e.obs[k])], want[k][Len(want[k])])>>,
    <<"NoOtherVectorChanged", \A k \in DOMAIN e.obs : Len(e.obs[k]) = Len(want[k]) /\ \A i \in DOMAIN want[k] : i < Len(want[k]) \/ e.steps[k].op = "set" => Same(e.obs[k][i], want[k][i])>>})
Verdict(e) == CASE e.ev = "history" -> Hist(e)
                [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
