---------------------------- MODULE FactorsTrace ----------------------------
(* Conformance of makePTDF and makeLODF with Factors.                        *)
EXTENDS TraceRun, Factors
Tol == "1e-8"
Shape(e) == Len(e.h) = Len(e.c.branch) /\ \A b \in DOMAIN e.h : Len(e.h[b]) = Len(e.c.bus)
Ptdf(e) == LET c == e.c IN IF ~Shape(e) THEN {"Shape"} ELSE Failing({
    <<"FactorsAreFlows", \A i \in DOMAIN c.bus : IsFlow(c, Col(e.h, i), e.th[i], Tol)>>,
    <<"FactorsBalance", \A i \in DOMAIN c.bus : Balances(c, Col(e.h, i), Pattern(c, e.kind, e.slack, i), Tol)>>,
    <<"SlackFactorsZero", e.kind = "bus" => \A b \in DOMAIN e.h : DNear(e.h[b][e.slack + 1], 0, Tol)>>,
    <<"PredictsBalancedInjection", e.kind # "matrix" => IsDCFlow(c, Apply(e.h, e.p), e.p, e.thp, Tol)>>,
    <<"InputUntouched", e.untouched>> })
Lodf(e) == LET c == e.c IN Failing({
    <<"Diagonal", \A b \in DOMAIN e.lodf : Survives(c, b) => DClose(e.lodf[b][b], -1, Tol)>>,
    <<"BaseFlow", IsDCFlow(c, e.flow, e.p, e.th, Tol)>>,
    <<"PredictsOutage", \A k \in DOMAIN c.branch : Survives(c, k) =>
        IsDCFlow(Without(c, k), Predicted(e.flow, e.lodf, k), e.p, e.thk[k], "1e-7")>>,
    <<"InputUntouched", e.untouched>> })
Verdict(e) == CASE e.ev = "ptdf" -> Ptdf(e) [] e.ev = "lodf" -> Lodf(e) [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
