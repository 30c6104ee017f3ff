--------------------------- MODULE OpfModelTrace ---------------------------
(* Conformance of the functions opf_costfcn, opf_consfcn and opf_hessfcn     *)
(* hand to the solver with OpfModel.                                         *)
EXTENDS TraceRun, OpfModel
AbsSum(s) == DSum([k \in DOMAIN s |-> DAbs(s[k])])
Within(a, b, size, tol) == DLe(DAbs(DSub(a, b)), DMul(tol, DAdd(1, size)))
Shape(m, r, n) == Len(m) = r /\ \A k \in DOMAIN m : Len(m[k]) = n
Vec(s, t, tol) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Within(s[k], t[k], DAbs(t[k]), tol)
Points(e) ==
    LET c == e.c  u == e.u  x == e.x  n == Len(x)  y == YbusOf(c)  il == TLCEval([k \in DOMAIN e.il |-> e.il[k] + 1])
        nh == 2 * Len(il)
        f == TLCEval(Objective(c, u, x))  g == Balance(c, y, x)  h == FlowLimits(c, x, il, e.kind)
    IN Failing(
       IF n # AtZ(c) + e.nz THEN {<<"VariableLayout", FALSE>>} ELSE {
       <<"Objective", Within(e.f, f, DAdd(DAbs(f), AbsSum(e.df)), "1e-10")>>,
       <<"ObjectiveGradient", Len(e.df) = n /\ LET m == AbsSum(e.df) IN \A k \in 1..n :
            Within(e.df[k], By(LAMBDA w : Objective(c, u, w), x, k), m, "1e-10")>>,
       <<"Balance", Vec(e.g, g, "1e-9")>>,
       <<"FlowLimits", Vec(e.h, h, "1e-9")>>,
       <<"BalanceJacobian", Shape(e.dg, n, 2 * NB(c)) /\ \A k \in 1..n :
            Vec(e.dg[k], ByVec(LAMBDA w : Balance(c, y, w), x, k), "1e-9")>>,
       <<"FlowJacobian", IF il = <<>> THEN e.dh = <<>> \/ e.dh = "none" \/ Shape(e.dh, n, 0) ELSE Shape(e.dh, n, nh) /\ \A k \in 1..n :
            Vec(e.dh[k], ByVec(LAMBDA w : FlowLimits(c, w, il, e.kind), x, k), "1e-9")>>,
       <<"ObjectiveHessian", Shape(e.d2f, n, n) /\ \A k \in 1..n :
            Within(DDot(e.d2f[k], e.d), HessTimes(LAMBDA w : Objective(c, u, w), x, e.d, k), AbsSum(e.d2f[k]), "1e-8")>>,
       <<"LagrangianHessian", Shape(e.hess, n, n) /\ LET z == TLCEval(DMul("1e-8", DSum([k \in 1..n |-> AbsSum(e.hess[k])]))) IN \A k \in 1..n :
            DLe(DAbs(DSub(DDot(e.hess[k], e.d),
                HessTimes(LAMBDA w : Lagrangian(c, y, u, w, il, e.kind, e.lam, e.mu, e.mult), x, e.d, k))), DAdd("1e-8", z))>> })
Verdict(e) == CASE e.ev = "opf" -> Points(e) [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
