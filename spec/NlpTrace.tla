------------------------------ MODULE NlpTrace ------------------------------
(* Conformance of pips and of qps_pypower (quadratic programs) with Nlp.     *)
(* Tolerances are the ones given to the solver (e.tol), which are relative   *)
(* to the size of the point and of the multipliers; costs are scaled by      *)
(* e.mult inside the solver.                                                 *)
EXTENDS TraceRun, Nlp
Scaled(e, v) == DMul(e.mult, v)
Solved(e) ==
    LET p == e.p  s == e.s
        ft == DMul(e.tol.feas, DMul("2", DAdd(1, DMaxOf(<<Size(s.x), MaxSlack(p, s)>>))))
        gt == DDiv(DMul(e.tol.grad, DMul("1.1", DAdd(1, Scaled(e, MaxMu(s))))), e.mult)
        ct == DDiv(DMul("3", DMul(e.tol.comp, DAdd(1, Size(s.x)))), e.mult)
        cut == DDiv("1.01e-5", e.mult)
    IN {<<"ResultComplete", ShapeOk(p, s)>>} \cup (IF ~ShapeOk(p, s) THEN {} ELSE {
        <<"FeasibleAtSuccess", Feasible(p, s, ft)>>,
        <<"MultipliersNonnegative", Signs(s)>>,
        <<"MultipliersPlaced", Placed(p, s)>>,
        <<"Complementary", Complementary(p, s, ct)>>,
        <<"Stationary", Stationary(p, s, gt, cut)>>,
        <<"ObjectiveAtPoint", DClose(e.f, FAt(p, s.x), "1e-9")>> })
Below(h, t) == DLt(h.feascond, t.feas) /\ DLt(h.gradcond, t.grad) /\ DLt(h.compcond, t.comp) /\ DLt(h.costcond, t.cost)
Honest(e) ==
    LET n == Len(e.hist) IN {
    <<"WithinLimit", e.it <= e.max /\ (n = e.it + 1 \/ (e.message = "Numerically failed" /\ n = e.it))>>,
    <<"FlagMeansConditions", n > 0 => (e.conv = Below(e.hist[n], e.tol))>>,
    <<"StopsAtOnce", \A k \in 1..(n - 1) : ~Below(e.hist[k], e.tol)>>,
    <<"MessageAgrees", e.conv = (e.message = "Converged")>>,
    <<"StepsKeepInterior", \A k \in 2..n : DNan(e.hist[k].alphap) \/ (DLe(0, e.hist[k].alphap) /\ DLe(e.hist[k].alphap, 1) /\ DLe(e.hist[k].alphad, 1))>>,
    <<"InputsUntouched", e.untouched>> }
\* the recorded iterates: their costs are those in the history, steps as recorded, the last one is returned
Dist(a, b) == DSqrt(DSum([k \in DOMAIN a |-> LET d == DSub(a[k], b[k]) IN DMul(d, d)]))
Iterates(e) ==
    LET n == Len(e.hist) IN IF e.xs = <<>> THEN {} ELSE {
    <<"HistoryOfIterates", Len(e.xs) = n /\ \A k \in 1..n : DClose(e.hist[k].obj, FAt(e.p, e.xs[k]), "1e-8")>>,
    <<"StepSizes", Len(e.xs) = n /\ \A k \in 2..n : DLe(DAbs(DSub(Dist(e.xs[k], e.xs[k - 1]), DMul(e.hist[k].alphap, e.hist[k].stepsize))),
            DMul("1e-8", DAdd(1, Size(e.xs[k]))))>>,
    <<"LastIterateReturned", Len(e.xs) = n /\ DSameSeq(e.xs[n], e.s.x)>> }
AllFinite(e) == \A k \in DOMAIN e.xs : \A j \in DOMAIN e.xs[k] : DFinite(e.xs[k][j])
Pips(e) == Failing(Honest(e) \cup (IF e.conv THEN Solved(e) ELSE {}) \cup (IF AllFinite(e) THEN Iterates(e) ELSE {}))
\* a quadratic program through the wrapper; e.truth = "optimum", "infeasible" or "unbounded"
Qp(e) == Failing(
    IF e.truth = "optimum" THEN {<<"InputsUntouched", e.untouched>>,
        <<"AlgorithmReported", e.alg = e.used \/ e.alg = 0>>} \cup (IF e.conv THEN Solved(e) \cup
        {<<"OptimalValue", DLe(DAbs(DSub(e.f, FAt(e.p, e.best))), DMul("2e-5", DAdd(1, DAdd(DAbs(e.f), DAdd(Size(e.best), MaxSlack(e.p, e.s))))))>>} ELSE {})
    ELSE {<<"NotReportedSolved", ~e.conv>>, <<"InputsUntouched", e.untouched>>})
\* malformed requests
Bad(e) == Failing({<<"Rejected", ~e.ok>>})
\* interior point methods may stall on a rare problem: of the problems that are convex, strictly feasible,
\* well scaled and run with the default limits, nearly all are solved
Rate(e) == Failing({<<"SolvableIsSolved", e.total > 50 => 100 * e.solved >= 97 * e.total>>})
Verdict(e) == CASE e.ev = "pips" -> Pips(e) [] e.ev = "qp" -> Qp(e) [] e.ev = "rate" -> Rate(e) [] e.ev = "bad" -> Bad(e) [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
