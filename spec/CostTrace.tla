------------------------------ MODULE CostTrace ------------------------------
(* Conformance of totcost, polycost, pqcost, modcost and poly2pwl with Cost.  *)
EXTENDS TraceRun, Cost
Tol == "1e-9"
\* |a - b| small against the size of the terms summed (given) - costs cancel
Near(a, b, scale) == DLe(DAbs(DSub(a, b)), DMul("1e-11", DAdd(1, scale)))
RECURSIVE AbsHorner(_, _)
AbsHorner(co, x) == IF co = <<>> THEN 0 ELSE DAdd(DMul(AbsHorner(SubSeq(co, 1, Len(co) - 1), x), DAbs(x)), DAbs(co[Len(co)]))
MaxOf(s) == DSum([k \in DOMAIN s |-> DAbs(s[k])])
\* at a jump in x of a breakpoint two segments give the same value, so only rounding matters
Size(r, x) == IF DEq(r[MODEL], PWL) THEN LET k == MaxOf(Ys(r)) IN
                DAdd(k, DMul(DSum([q \in 1..(NC(r) - 1) |-> DAbs(Slope(r, q))]), DAdd(DAbs(x), MaxOf(Xs(r)))))
              ELSE AbsHorner(Coefs(r), x)
Tot(e) == Failing({
    <<"CostValue", Len(e.v) = Len(e.g) /\ \A k \in DOMAIN e.g : Near(e.v[k], CostAt(e.g[k], e.x[k]), Size(e.g[k], e.x[k]))>>,
    <<"InputUntouched", e.untouched>> })
TotM(e) == Failing({
    <<"CostMatrix", Len(e.v) = Len(e.g) /\ \A k \in DOMAIN e.g : Len(e.v[k]) = Len(e.x[k]) /\
        \A j \in DOMAIN e.x[k] : Near(e.v[k][j], CostAt(e.g[k], e.x[k][j]), Size(e.g[k], e.x[k][j]))>>,
    <<"InputUntouched", e.untouched>> })
DSize(r, x, d) == LET c == [k \in DOMAIN Coefs(r) |-> DAbs(Coefs(r)[k])]  a == DAbs(x) IN
    HornerC(IF d = 0 THEN c ELSE IF d = 1 THEN DCoefs(c) ELSE DCoefs(DCoefs(c)), a)
Poly(e) == Failing({
    <<IF e.d = 0 THEN "PolynomialValue" ELSE IF e.d = 1 THEN "FirstDerivative" ELSE "SecondDerivative",
        Len(e.v) = Len(e.g) /\ \A k \in DOMAIN e.g : Near(e.v[k], PolyAt(e.g[k], e.x[k], e.d), DSize(e.g[k], e.x[k], e.d))>>,
    <<"InputUntouched", e.untouched>> })
Rows(g, on) == [k \in DOMAIN on |-> g[on[k] + 1]]
Split(e) == LET m == Len(e.g) IN Failing(
    IF m = e.ng THEN {<<"SplitP", e.ok /\ DSameMat(e.p, Rows(e.g, e.on))>>, <<"NoQ", e.ok /\ e.q = <<>> >>}
    ELSE IF m = 2 * e.ng THEN {<<"SplitP", e.ok /\ DSameMat(e.p, Rows(e.g, e.on))>>,
        <<"SplitQ", e.ok /\ DSameMat(e.q, Rows(e.g, [k \in DOMAIN e.on |-> e.on[k] + e.ng]))>>}
    ELSE {<<"InconsistentRejected", ~e.ok>>})
\* compare the modified function with the original one at sample points
Mod(e) == Failing({
    <<"ModifiedCost", Len(e.r) = Len(e.g) /\ \A k \in DOMAIN e.g : \A j \in DOMAIN e.x :
        LET f(y) == CostAt(e.g[k], y) IN
        DClose(CostAt(e.r[k], e.x[j]), ModifiedAt(f, e.type, e.a, e.x[j]), "1e-8")>>,
    <<"KindKept", Len(e.r) = Len(e.g) /\ \A k \in DOMAIN e.g : Len(e.r[k]) = Len(e.g[k]) /\ DSameSeq(SubSeq(e.r[k], 1, NCOST), SubSeq(e.g[k], 1, NCOST))>>,
    <<"InputUntouched", e.untouched>> })
Pwl(e) == Failing({
    <<"IsPiecewise", Len(e.r) = Len(e.g) /\ \A k \in DOMAIN e.r : DEq(e.r[k][MODEL], PWL) /\ DEq(e.r[k][NCOST], e.n)
        /\ Len(e.r[k]) >= COST + 2 * e.n - 1 /\ DSameSeq(SubSeq(e.r[k], 2, 3), SubSeq(e.g[k], 2, 3))>>,
    <<"PointsEvenlySpaced", \A k \in DOMAIN e.r : DCloseSeq(Xs(e.r[k]), Sample(e.lo[k], e.hi[k], e.n), Tol)>>,
    <<"PointsOnCurve", \A k \in DOMAIN e.r : \A j \in 1..e.n :
        Near(Ys(e.r[k])[j], PolyAt(e.g[k], Xs(e.r[k])[j], 0), AbsHorner(Coefs(e.g[k]), Xs(e.r[k])[j]))>>,
    <<"InputUntouched", e.untouched>> })
Verdict(e) == CASE e.ev = "totcost" -> Tot(e) [] e.ev = "totmat" -> TotM(e) [] e.ev = "polycost" -> Poly(e) [] e.ev = "pqcost" -> Split(e)
                [] e.ev = "modcost" -> Mod(e) [] e.ev = "poly2pwl" -> Pwl(e) [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
