-------------------------- MODULE OpfSolutionTrace --------------------------
(* Conformance of the optimal power flow, AC and DC, with OpfSolution: every *)
(* event is one solved (or refused) case.                                    *)
EXTENDS TraceRun, OpfSolution

Width(t, n) == [k \in DOMAIN t |-> IF Len(t[k]) < n THEN t[k] \o [j \in 1..(n - Len(t[k])) |-> 0] ELSE t[k]]
MaxAbs(s) == LET RECURSIVE M(_) M(k) == IF k = 0 THEN 0 ELSE DMax(M(k - 1), DAbs(s[k])) IN M(Len(s))
SameExcept(t, u, cols) == Len(t) = Len(u) /\ \A k \in DOMAIN t : Len(t[k]) = Len(u[k]) /\ \A j \in DOMAIN t[k] : j \in cols \/ DSame(t[k][j], u[k][j])
AllZero(t, rows, cols) == \A k \in rows : \A j \in cols : DEq(t[k][j], 0)
Within(x, lo, up, tol) == \A k \in DOMAIN x : DLe(DSub(lo[k], tol), x[k]) /\ DLe(x[k], DAdd(up[k], tol))
Val(e, name) == IF Has(e.var, name) THEN e.var[name].val ELSE <<>>
VarU(e, name, n) == At(n, IF Has(e.var, name) THEN e.var[name].u ELSE <<>>)
VarL(e, name, n) == At(n, IF Has(e.var, name) THEN e.var[name].l ELSE <<>>)
LinU(e, name, n) == At(n, IF Has(e.lin, name) THEN e.lin[name].u ELSE <<>>)
LinL(e, name, n) == At(n, IF Has(e.lin, name) THEN e.lin[name].l ELSE <<>>)

(* everything the clauses need, once *)
Frame(e) ==
    LET c == e.c  i == Inside(c, e.perm)  ri == ResultInside(c, e.perm, e.r)
        which == IF e.dc THEN Curves(PCost(i)) ELSE Curves(i.gencost)
        y == Val(e, "y")  z == Val(e, "z")
        x == IF e.dc THEN PointDC(i, ri, y, z) ELSE PointAC(i, ri, y, z)
    IN [i |-> i, ri |-> ri, w |-> which, y |-> y, z |-> z, x |-> x,
        u |-> UserInside(c, e.perm, e.dc, e.u), A |-> UserMat(c, e.perm, e.dc, e.u.A),
        \* user rows and general costs do not see y
        xu |-> LET n == IF e.dc THEN NB(i) + NG(i) ELSE 2 * NB(i) + 2 * NG(i) IN SubSeq(x, 1, n) \o z,
        out |-> Per(i, ri.gen, PG) \o (IF e.dc THEN <<>> ELSE Per(i, ri.gen, QG))]

(* sizes of the records against the problem *)
Shaped(e) ==
    LET c == e.c IN
    /\ IsGenOrder(c, e.perm) /\ Len(e.r.bus) = Len(c.bus) /\ Len(e.r.gen) = Len(c.gen) /\ Len(e.r.branch) = Len(c.branch)
    /\ \A k \in DOMAIN e.r.bus : Len(e.r.bus[k]) >= MUVMIN
    /\ \A k \in DOMAIN e.r.gen : Len(e.r.gen[k]) >= MUQMIN
    /\ \A k \in DOMAIN e.r.branch : Len(e.r.branch[k]) >= MUANGMAX
    /\ LET i == Inside(c, e.perm)  n(name) == Len(Val(e, name)) IN
       /\ n("Va") = NB(i) /\ n("Pg") = NG(i)
       /\ n("y") = Len(IF e.dc THEN Curves(PCost(i)) ELSE Curves(i.gencost))
       /\ n("z") = Len(e.u.zl)
       /\ e.dc \/ (n("Vm") = NB(i) /\ n("Qg") = NG(i))
    /\ \A k \in DOMAIN e.r.bus : DFinite(e.r.bus[k][VM]) /\ DFinite(e.r.bus[k][VA])
    /\ \A k \in DOMAIN e.r.gen : DFinite(e.r.gen[k][PG]) /\ DFinite(e.r.gen[k][QG])
    /\ DFinite(e.f)

OffRows(t, on) == DOMAIN t \ Rng(on)
(* what is input stays, what is out of service carries nothing *)
Tables(e) ==
    LET c == e.c  r == e.r
        bo == OnBus(c)  go == OnGen(c)  ro == OnBranch(c)
        b0 == Width(c.bus, MUVMIN)  g0 == Width(c.gen, MUQMIN)  r0 == Width(c.branch, MUANGMAX)
    IN {<<"InputColumnsKept", /\ SameExcept(r.bus, b0, IF e.dc THEN {VA, LAMP, LAMQ, MUVMAX, MUVMIN} ELSE {VM, VA, LAMP, LAMQ, MUVMAX, MUVMIN})
                              /\ SameExcept(r.gen, g0, IF e.dc THEN {PG, QG, MUPMAX, MUPMIN, MUQMAX, MUQMIN} ELSE {PG, QG, VG, MUPMAX, MUPMIN, MUQMAX, MUQMIN})
                              /\ SameExcept(r.branch, r0, {PF, QF, PT, QT, MUSF, MUST, MUANGMIN, MUANGMAX})
                              /\ DSameMat(e.r.gencost, c.gencost) /\ DEq(e.r.baseMVA, c.baseMVA)>>,
        <<"IsolatedBusesKept", \A k \in OffRows(c.bus, bo) : DSameSeq(r.bus[k], b0[k])>>,
        <<"OffUnitsCarryNothing", AllZero(r.gen, OffRows(c.gen, go), {PG, QG, MUPMAX, MUPMIN, MUQMAX, MUQMIN})
              /\ \A k \in OffRows(c.gen, go) : DSame(r.gen[k][VG], g0[k][VG])>>,
        <<"OffBranchesCarryNothing", AllZero(r.branch, OffRows(c.branch, ro), {PF, QF, PT, QT, MUSF, MUST, MUANGMIN, MUANGMAX})>>}

\* named values are those of the tables
Records(e, m) == {<<"NamedValuesMatchTables",
        LET i == m.i  x == m.x  v == Val(e, "Va") \o (IF e.dc THEN Val(e, "Pg") ELSE Val(e, "Vm") \o Val(e, "Pg") \o Val(e, "Qg")) IN
        \A k \in DOMAIN v : DClose(v[k], x[k], "1e-11")>>}

Tight(e, m, flows) == DMul(4, DMul(e.feastol, DSum(<<1, DMul(10, MaxAbs(m.x)), flows>>)))
FlowScale(i) == LET s == MaxAbs([k \in DOMAIN Limited(i) |-> DDiv(i.branch[Limited(i)[k]][RATEA], i.baseMVA)]) IN DMul(s, s)
UserScale(e, m) == DMul(2, MaxAbs([r \in DOMAIN m.A |-> DDot(m.A[r], m.xu)]))

Angles(e, m) == IF e.ignore THEN "inf" ELSE InAngles(m.i, Angle(m.i, m.x))
UserRowsKept(e, m, tol) == /\ Within([r \in DOMAIN m.A |-> DDot(m.A[r], m.xu)], e.u.l, e.u.u, tol)
                           /\ Within(m.z, e.u.zl, e.u.zu, tol)
\* units (and constant-power-factor loads) whose demand nobody can meet
Impossible(i) == /\ \A k \in DOMAIN i.branch : DLe(0, i.branch[k][BRR])
                 /\ \A k \in DOMAIN i.bus : DLe(0, i.bus[k][GS])
                 /\ DLt(DAdd(DSum(Col(i.gen, PMAX)), "0.001"), DSum(Col(i.bus, PD)))

-----------------------------------------------------------------------------
(* AC: the operating point is feasible and its cost is what is claimed *)
Feasible(e) ==
    IF ~e.success THEN {} ELSE IF ~Shaped(e) THEN {"Shape"} ELSE
    LET m == Frame(e)  i == m.i  ri == m.ri  x == m.x
        yb == YbusOf(i)
        tol == Tight(e, m, DAdd(FlowScale(i), UserScale(e, m)))
        v == VoltsOf(i, x)
        il == Limited(i)
        obj == Objective(i, m.u, x)
        user == UserCostAt(m.u, m.xu)
    IN Failing(Tables(e) \cup Records(e, m) \cup
    {<<"ImpossibleNotSolved", ~Impossible(i)>>,
     <<"PowerBalance", LET g == Balance(i, yb, x) IN DLe(MaxAbs(g), tol)>>,
     <<"FlowsFollowVoltages", \A b \in DOMAIN i.branch : LET f == BrS(i, b, v, TRUE)  t == BrS(i, b, v, FALSE) IN
          /\ DNear(DDiv(ri.branch[b][PF], i.baseMVA), f[1], "1e-9") /\ DNear(DDiv(ri.branch[b][QF], i.baseMVA), f[2], "1e-9")
          /\ DNear(DDiv(ri.branch[b][PT], i.baseMVA), t[1], "1e-9") /\ DNear(DDiv(ri.branch[b][QT], i.baseMVA), t[2], "1e-9")>>,
     <<"VoltageLimits", Within(Col(ri.bus, VM), Col(i.bus, VMIN), Col(i.bus, VMAX), tol)>>,
     <<"ReferenceAngles", \A k \in Refs(i) : DNear(x[k], Rad(i.bus[k][VA]), tol)>>,
     <<"OutputLimits", Within(Per(i, ri.gen, PG), Per(i, i.gen, PMIN), Per(i, i.gen, PMAX), tol) /\ Within(Per(i, ri.gen, QG), Per(i, i.gen, QMIN), Per(i, i.gen, QMAX), tol)>>,
     <<"UnitSetpoints", \A k \in DOMAIN i.gen : DEq(ri.gen[k][VG], ri.bus[i.gen[k][GBUS] + 1][VM])>>,
     <<"FlowLimits", \A k \in DOMAIN FlowLimits(i, x, il, e.kind) : DLe(FlowLimits(i, x, il, e.kind)[k], tol)>>,
     <<"AngleLimits", DLe(DNeg(tol), Angles(e, m))>>,
     <<"PowerFactors", DLe(DNeg(tol), OnLines(i, m.out))>>,
     <<"CapabilityCurves", DLe(DNeg(DMul(tol, 4)), UnderCap(i, m.out)) /\ DLe(DNeg(DMul(tol, 4)), AboveCap(i, m.out))>>,
     <<"UserLimits", UserRowsKept(e, m, tol)>>,
     <<"ObjectiveReported", DClose(e.f, obj, "1e-9")>>,
     <<"UserCostReported", DClose(e.cost, user, "1e-9")>>,
     <<"CostOfDispatch", LET d == DAdd(DispatchCost(i.gencost, i.baseMVA, m.out), user) IN
          /\ DLe(d, DAdd(e.f, DMul(DAdd(1, Len(m.w)), DMul(tol, "1e4"))))
          /\ DLe(e.f, DSum(<<d, DMul(DMul(DAdd(1, Len(m.w)), DMul(e.comptol, "1e4")), DAdd(1, MaxAbs(x))), "1e-6">>))>>})

-----------------------------------------------------------------------------
(* AC: the reported prices satisfy the first-order conditions *)
\* a constraint whose multiplier was cut off has at most this much of one
Cut(e, mult, x, slack) ==
    LET top == DMul("1e-5", mult) IN
    IF DLe(slack, "1e-6") THEN top ELSE DMin(top, DDiv(DMul(2, DMul(e.comptol, DMul(mult, DAdd(1, MaxAbs(x))))), slack))
MuFlow(i, ri, il, col) == [k \in DOMAIN il |-> DDiv(DMul(ri.branch[il[k]][col], DMul(i.baseMVA, i.baseMVA)), DMul(2, i.branch[il[k]][RATEA]))]
Signs(e, m) == LET ri == m.ri IN
    /\ Nonneg(Col(ri.bus, MUVMAX)) /\ Nonneg(Col(ri.bus, MUVMIN))
    /\ \A c \in {MUPMAX, MUPMIN, MUQMAX, MUQMIN} : Nonneg(Col(ri.gen, c))
    /\ \A c \in {MUSF, MUST, MUANGMIN, MUANGMAX} : Nonneg(Col(ri.branch, c))
    /\ \A n \in DOMAIN e.var : Nonneg(e.var[n].l) /\ Nonneg(e.var[n].u)
    /\ \A n \in DOMAIN e.lin : Nonneg(e.lin[n].l) /\ Nonneg(e.lin[n].u)
\* each multiplier times its slack
Slack(e, mult, x, mu, slack) == DLe(DMul(mu, slack), DAdd(DMul(e.comptol, DMul(mult, DMul(4, DAdd(1, MaxAbs(x))))), DMul(DAbs(mu), DMul(40, DMul(e.feastol, DAdd(1, MaxAbs(x)))))))
Slacks(e, mult, x, mu, v, lim) == \A k \in DOMAIN v : IF DFinite(lim[k]) /\ DLt(DAbs(lim[k]), "1e10") THEN Slack(e, mult, x, mu[k], DAbs(DSub(v[k], lim[k]))) ELSE DLe(DAbs(mu[k]), "1e-6")
\* upper and lower multipliers of units with sloped limits: folded into a net value per output
Fold(i, base, upper, lower, mh, ml, k, isP) ==
    LET h == Indices(Len(upper), LAMBDA j : upper[j] = k)  w == Indices(Len(lower), LAMBDA j : lower[j] = k)  g == i.gen[k]
        hv == <<DSub(g[QC1MAX], g[QC2MAX]), DSub(g[PC2], g[PC1])>>  lv == <<DSub(g[QC2MIN], g[QC1MIN]), DSub(g[PC1], g[PC2])>>
        part(v) == DDiv(IF isP THEN v[1] ELSE v[2], CAbs(v))
    IN DAdd(IF h = <<>> THEN 0 ELSE DDiv(DMul(mh[h[1]], part(hv)), base), IF w = <<>> THEN 0 ELSE DDiv(DMul(ml[w[1]], part(lv)), base))
NearMu(a, b) == DClose(a, b, "1e-9")
Split(net, up, lo) == /\ NearMu(up, IF DLt(0, net) THEN net ELSE 0) /\ NearMu(lo, IF DLt(net, 0) THEN DNeg(net) ELSE 0)

\* is any sloped limit active in the model
TableMu(e, m) ==
    LET i == m.i  ri == m.ri  nb == NB(i)  ng == NG(i)  base == i.baseMVA
        uh == UpperGens(i)  lh == LowerGens(i)
        mh == Net(LinU(e, "PQh", Len(uh)), LinL(e, "PQh", Len(uh)))  ml == Net(LinU(e, "PQl", Len(lh)), LinL(e, "PQl", Len(lh)))
        folded == Len(uh) + Len(lh) > 0
        vu(n, k) == DDiv(e.var[n].u[k], base)  vl(n, k) == DDiv(e.var[n].l[k], base)
    IN {<<"VoltagePricesMatchRecords", \A k \in 1..nb : NearMu(ri.bus[k][MUVMAX], e.var.Vm.u[k]) /\ NearMu(ri.bus[k][MUVMIN], e.var.Vm.l[k])>>,
        <<"OutputPricesMatchRecords", \A k \in 1..ng :
            IF folded THEN /\ Split(DAdd(DSub(vu("Pg", k), vl("Pg", k)), Fold(i, base, uh, lh, mh, ml, k, TRUE)), ri.gen[k][MUPMAX], ri.gen[k][MUPMIN])
                           /\ Split(DAdd(DSub(vu("Qg", k), vl("Qg", k)), Fold(i, base, uh, lh, mh, ml, k, FALSE)), ri.gen[k][MUQMAX], ri.gen[k][MUQMIN])
            ELSE /\ NearMu(ri.gen[k][MUPMAX], vu("Pg", k)) /\ NearMu(ri.gen[k][MUPMIN], vl("Pg", k))
                 /\ NearMu(ri.gen[k][MUQMAX], vu("Qg", k)) /\ NearMu(ri.gen[k][MUQMIN], vl("Qg", k))>>,
        <<"BalancePricesMatchRecords", \A k \in 1..nb : /\ NearMu(DMul(ri.bus[k][LAMP], base), DSub(e.nln.Pmis.u[k], e.nln.Pmis.l[k]))
                                                       /\ NearMu(DMul(ri.bus[k][LAMQ], base), DSub(e.nln.Qmis.u[k], e.nln.Qmis.l[k]))>>,
        <<"FlowPricesMatchRecords", \A b \in DOMAIN i.branch : /\ NearMu(DMul(ri.branch[b][MUSF], base), DSub(e.nln.Sf.u[b], e.nln.Sf.l[b]))
                                                               /\ NearMu(DMul(ri.branch[b][MUST], base), DSub(e.nln.St.u[b], e.nln.St.l[b]))>>}
AngleMu(e, m) ==
    LET w == IF e.ignore THEN <<>> ELSE AngBranches(m.i)  lo == LinL(e, "ang", Len(w))  up == LinU(e, "ang", Len(w)) IN
    {<<"AnglePricesMatchRecords", /\ \A k \in DOMAIN w : NearMu(DMul(m.ri.branch[w[k]][MUANGMIN], TwoPi180), lo[k]) /\ NearMu(DMul(m.ri.branch[w[k]][MUANGMAX], TwoPi180), up[k])
                                  /\ \A b \in DOMAIN m.i.branch \ Rng(w) : DEq(m.ri.branch[b][MUANGMIN], 0) /\ DEq(m.ri.branch[b][MUANGMAX], 0)>>}
\* rows shared by both models: curves, angles, user rows, user variables
LinearSlacks(e, m, mult) ==
    LET i == m.i  x == m.x
        nr == RowsOfCurves(i.gencost, m.w)  yu == LinU(e, "ycon", nr)
        segs(j) == NC(i.gencost[m.w[j]]) - 1
        ang == IF e.ignore THEN <<>> ELSE AngBranches(i)  al == LinL(e, "ang", Len(ang))  au == LinU(e, "ang", Len(ang))
        n == Len(m.A)  rows == [r \in 1..n |-> DDot(m.A[r], m.xu)]
    IN {<<"CurveSlackness", \A j \in DOMAIN m.w : \A s \in 1..segs(j) :
            LET r == i.gencost[m.w[j]]  p == DMul(i.baseMVA, m.out[m.w[j]]) IN
            Slack(e, mult, x, yu[Before(i.gencost, m.w, j) + s], DAbs(DSub(m.y[j], DAdd(Ys(r)[s], DMul(Slope(r, s), DSub(p, Xs(r)[s]))))))>>,
        <<"AngleSlackness", \A k \in DOMAIN ang : LET b == i.branch[ang[k]]  d == DiffOf(b, Angle(i, x)) IN
            /\ IF LoAng(b) THEN Slack(e, mult, x, al[k], DAbs(DSub(d, Rad(b[ANGMIN])))) ELSE DLe(DAbs(al[k]), "1e-6")
            /\ IF HiAng(b) THEN Slack(e, mult, x, au[k], DAbs(DSub(Rad(b[ANGMAX]), d))) ELSE DLe(DAbs(au[k]), "1e-6")>>,
        <<"UserRowSlackness", Slacks(e, mult, x, LinU(e, "usr", n), rows, e.u.u) /\ Slacks(e, mult, x, LinL(e, "usr", n), rows, e.u.l)>>,
        <<"UserVariableSlackness", LET q == Len(m.z) IN Slacks(e, mult, x, VarU(e, "z", q), m.z, e.u.zu) /\ Slacks(e, mult, x, VarL(e, "z", q), m.z, e.u.zl)>>}

\* position of variable k among the user columns, 0 for a y
Prices(e) ==
    IF ~e.success THEN {} ELSE IF ~Shaped(e) THEN {"Shape"} ELSE
    LET m == Frame(e)  i == m.i  ri == m.ri  x == m.x  base == i.baseMVA
        nb == NB(i)  ng == NG(i)  nx == 2 * nb + 2 * ng  ny == Len(m.w)
        yb == YbusOf(i)
        il == Limited(i)
        mult == "1e4"
        lam == [k \in 1..(2 * nb) |-> DMul(base, IF k <= nb THEN ri.bus[k][LAMP] ELSE ri.bus[k - nb][LAMQ])]
        mu == MuFlow(i, ri, il, MUSF) \o MuFlow(i, ri, il, MUST)
        h == FlowLimits(i, x, il, e.kind)
        vl == VarLoads(i)  mvl == Net(LinU(e, "vl", Len(vl)), LinL(e, "vl", Len(vl)))
        nr == RowsOfCurves(i.gencost, m.w)  yu == Net(LinU(e, "ycon", nr), LinL(e, "ycon", nr))
        usr == Net(LinU(e, "usr", Len(m.A)), LinL(e, "usr", Len(m.A)))
        zn == Net(VarU(e, "z", Len(m.z)), VarL(e, "z", Len(m.z)))
        van == Net(e.var.Va.u, e.var.Va.l)  vmn == Net(Col(ri.bus, MUVMAX), Col(ri.bus, MUVMIN))
        top == DMax(MaxAbs(lam), DMax(MaxAbs(mu), DMax(MaxAbs(yu), DMax(MaxAbs(usr), DMax(MaxAbs(van), DMax(MaxAbs(vmn), DMax(
               MaxAbs([k \in 1..ng |-> DMul(base, DMax(DMax(ri.gen[k][MUPMAX], ri.gen[k][MUPMIN]), DMax(ri.gen[k][MUQMAX], ri.gen[k][MUQMIN])))]), MaxAbs(zn))))))))
        tol0 == DAdd(DMul(e.gradtol, DAdd(mult, top)), "1e-6")
        \* position among the user columns
        upos(k) == IF k <= nx THEN k ELSE k - ny
        isY(k) == nx < k /\ k <= nx + ny
        kindOf(k) == IF k <= nb THEN "Va" ELSE IF k <= 2 * nb THEN "Vm" ELSE IF k <= 2 * nb + ng THEN "Pg" ELSE IF k <= nx THEN "Qg" ELSE IF isY(k) THEN "y" ELSE "z"
        curveOf(row) == LET s == Indices(ny, LAMBDA j : m.w[j] = row) IN IF s = <<>> THEN 0 ELSE s[1]
        curve(row) == IF curveOf(row) = 0 THEN 0 ELSE CurveTerm(base, i.gencost, m.w, yu, curveOf(row))
        curveCut(row) == LET j == curveOf(row) IN IF j = 0 THEN 0 ELSE
            DSum([s \in 1..(NC(i.gencost[row]) - 1) |-> IF DLt(0, yu[Before(i.gencost, m.w, j) + s]) THEN 0 ELSE
                LET r == i.gencost[row]  d == DSub(m.y[j], DAdd(Ys(r)[s], DMul(Slope(r, s), DSub(DMul(base, m.out[row]), Xs(r)[s])))) IN
                DMul(Cut(e, mult, x, d), DAdd(1, DAbs(DMul(base, Slope(r, s)))))])
        own(k) == CASE kindOf(k) = "Va" -> DAdd(van[k], AngTerm(ri, i, k))
                    [] kindOf(k) = "Vm" -> vmn[k - nb]
                    [] kindOf(k) = "Pg" -> LET g == k - 2 * nb IN DSum(<<DMul(base, DSub(ri.gen[g][MUPMAX], ri.gen[g][MUPMIN])), VlTerm(i, mvl, g, TRUE), curve(g)>>)
                    [] kindOf(k) = "Qg" -> LET g == k - 2 * nb - ng IN DSum(<<DMul(base, DSub(ri.gen[g][MUQMAX], ri.gen[g][MUQMIN])), VlTerm(i, mvl, g, FALSE), curve(ng + g)>>)
                    [] kindOf(k) = "y" -> DNeg(CurveSum(i.gencost, m.w, yu, k - nx))
                    [] kindOf(k) = "z" -> zn[k - nx - ny]
        extra(k) == CASE kindOf(k) = "Pg" -> curveCut(k - 2 * nb) [] kindOf(k) = "Qg" -> curveCut(ng + k - 2 * nb - ng) [] kindOf(k) = "y" -> curveCut(m.w[k - nx]) [] OTHER -> 0
        rowCut(k) == DSum([r \in DOMAIN m.A |-> IF DEq(usr[r], 0) THEN LET v == DDot(m.A[r], m.xu) IN
                        DMul(DAbs(m.A[r][upos(k)]), Cut(e, mult, x, DMin(DSub(e.u.u[r], v), DSub(v, e.u.l[r])))) ELSE 0])
        obj(q) == Objective(i, m.u, q)
        bal(q) == Balance(i, yb, q)
        lim(q) == FlowLimits(i, q, il, e.kind)
        volt(k) == k <= 2 * nb
        Stationary(k) ==
            LET dg == ByVec(bal, x, k)
                dh == IF volt(k) THEN ByVec(lim, x, k) ELSE [q \in DOMAIN mu |-> 0]
                slackTol == DSum([q \in DOMAIN mu |-> IF DLt(0, mu[q]) THEN 0 ELSE DMul(DAbs(dh[q]), Cut(e, mult, x, DNeg(h[q])))])
                total == DSum(<<By(obj, x, k), DDot(lam, dg), DDot(mu, dh), own(k), IF isY(k) THEN 0 ELSE UsrTerm(m.A, usr, upos(k))>>)
            IN DLe(DAbs(total), DSum(<<tol0, slackTol, extra(k), IF isY(k) THEN 0 ELSE rowCut(k), DMul(4, DMul("1e-5", mult)), DMul("1e-9", top)>>))
    IN Failing(TableMu(e, m) \cup AngleMu(e, m) \cup LinearSlacks(e, m, mult) \cup
    {<<"PricesOfLimitsNonnegative", Signs(e, m)>>,
     <<"UnlimitedBranchesPriceless", \A b \in DOMAIN i.branch \ Rng(il) : DEq(ri.branch[b][MUSF], 0) /\ DEq(ri.branch[b][MUST], 0)>>,
     <<"FlowSlackness", \A k \in DOMAIN mu : Slack(e, mult, x, mu[k], DAbs(h[k]))>>,
     <<"VoltageSlackness", Slacks(e, mult, x, e.var.Vm.u, Col(ri.bus, VM), Col(i.bus, VMAX)) /\ Slacks(e, mult, x, e.var.Vm.l, Col(ri.bus, VM), Col(i.bus, VMIN))>>,
     <<"OutputSlackness", /\ Slacks(e, mult, x, e.var.Pg.u, Per(i, ri.gen, PG), Per(i, i.gen, PMAX)) /\ Slacks(e, mult, x, e.var.Pg.l, Per(i, ri.gen, PG), Per(i, i.gen, PMIN))
                          /\ Slacks(e, mult, x, e.var.Qg.u, Per(i, ri.gen, QG), Per(i, i.gen, QMAX)) /\ Slacks(e, mult, x, e.var.Qg.l, Per(i, ri.gen, QG), Per(i, i.gen, QMIN))>>,
     <<"CapabilitySlackness", LET uh == UpperGens(i)  lh == LowerGens(i)
            dist(g, p, q, a, b) == DDiv(DAbs(DMul(DSub(LineAt(g, DMul(base, p), a, b), DMul(base, q)), DSub(g[PC2], g[PC1]))), DMul(base, CAbs(<<DSub(g[a], g[b]), DSub(g[PC2], g[PC1])>>))) IN
            /\ \A k \in DOMAIN uh : LET g == uh[k] IN Slack(e, mult, x, LinU(e, "PQh", Len(uh))[k], dist(i.gen[g], m.out[g], m.out[ng + g], QC1MAX, QC2MAX))
            /\ \A k \in DOMAIN lh : LET g == lh[k] IN Slack(e, mult, x, LinU(e, "PQl", Len(lh))[k], dist(i.gen[g], m.out[g], m.out[ng + g], QC1MIN, QC2MIN))>>,
     <<"Stationary", \A k \in DOMAIN x : Stationary(k)>>})

-----------------------------------------------------------------------------
(* DC: feasible, and optimal by the prices (the problem is convex) *)
LossFree(e) ==
    IF ~e.success THEN {} ELSE IF ~Shaped(e) THEN {"Shape"} ELSE
    LET m == Frame(e)  i == m.i  ri == m.ri  x == m.x  base == i.baseMVA
        nb == NB(i)  ng == NG(i)  nx == nb + ng  ny == Len(m.w)
        mult == 1
        va == Angle(i, x)  pg == Per(i, ri.gen, PG)
        flow == [b \in DOMAIN i.branch |-> DcFlow(i.branch[b], va)]
        il == Limited(i)
        tol == Tight(e, m, DSum(<<DMul(2, MaxAbs([k \in DOMAIN il |-> DDiv(i.branch[il[k]][RATEA], base)])), UserScale(e, m)>>))
        user == UserCostAt(m.u, m.xu)
        obj == DcObjective(i, m.u, x)
        lam == [k \in 1..nb |-> DMul(base, ri.bus[k][LAMP])]
        muf == [b \in DOMAIN i.branch |-> DMul(base, DSub(ri.branch[b][MUSF], ri.branch[b][MUST]))]
        nr == RowsOfCurves(i.gencost, m.w)  yu == Net(LinU(e, "ycon", nr), LinL(e, "ycon", nr))
        usr == Net(LinU(e, "usr", Len(m.A)), LinL(e, "usr", Len(m.A)))
        zn == Net(VarU(e, "z", Len(m.z)), VarL(e, "z", Len(m.z)))
        van == Net(e.var.Va.u, e.var.Va.l)
        pn == [k \in 1..ng |-> DMul(base, DSub(ri.gen[k][MUPMAX], ri.gen[k][MUPMIN]))]
        top == DMax(MaxAbs(lam), DMax(MaxAbs(muf), DMax(MaxAbs(yu), DMax(MaxAbs(usr), DMax(MaxAbs(van), DMax(MaxAbs(pn), MaxAbs(zn)))))))
        isY(k) == nx < k /\ k <= nx + ny
        upos(k) == IF k <= nx THEN k ELSE k - ny
        curveOf(row) == LET s == Indices(ny, LAMBDA j : m.w[j] = row) IN IF s = <<>> THEN 0 ELSE s[1]
        curve(row) == IF curveOf(row) = 0 THEN 0 ELSE CurveTerm(base, i.gencost, m.w, yu, curveOf(row))
        \* what balance and flow limits say about the angle of bus k
        net(k) == DSum([b \in DOMAIN i.branch |-> LET r == i.branch[b]  s == SusDC(r)  d == DAdd(DSub(lam[r[FBUS] + 1], lam[r[TBUS] + 1]), muf[b]) IN
                      IF r[FBUS] + 1 = k THEN DMul(s, d) ELSE IF r[TBUS] + 1 = k THEN DNeg(DMul(s, d)) ELSE 0])
        own(k) == IF k <= nb THEN DSum(<<net(k), van[k], AngTerm(ri, i, k)>>)
                  ELSE IF k <= nx THEN DSum(<<DNeg(lam[i.gen[k - nb][GBUS] + 1]), pn[k - nb], curve(k - nb)>>)
                  ELSE IF isY(k) THEN DNeg(CurveSum(i.gencost, m.w, yu, k - nx)) ELSE zn[k - nx - ny]
        objq(q) == DcObjective(i, m.u, q)
        big == DMax(1, MaxAbs([b \in DOMAIN i.branch |-> SusDC(i.branch[b])]))
        bigC == MaxAbs([s \in 1..ny |-> MaxAbs([q \in 1..(NC(i.gencost[m.w[s]]) - 1) |-> DMul(base, Slope(i.gencost[m.w[s]], q))])])
        cutAll == DMul("1e-5", DSum(<<10, DMul(2 * Len(il), big), DMul(4, bigC), DSum([r \in DOMAIN m.A |-> MaxAbs(m.A[r])])>>))
        Stationary(k) == LET t == DSum(<<By(objq, x, k), own(k), IF isY(k) THEN 0 ELSE UsrTerm(m.A, usr, upos(k))>>) IN
            DLe(DAbs(t), DSum(<<DMul(2, DMul(e.gradtol, DAdd(1, top))), cutAll, "1e-6", DMul("1e-9", top)>>))
    IN Failing(Tables(e) \cup Records(e, m) \cup AngleMu(e, m) \cup LinearSlacks(e, m, mult) \cup
    {<<"ImpossibleNotSolved", ~Impossible(i)>>,
     <<"PowerBalance", \A k \in 1..nb : DLe(DAbs(DcMismatch(i, k, va, pg)), tol)>>,
     <<"FlowsFollowAngles", \A b \in DOMAIN i.branch : /\ DNear(DDiv(ri.branch[b][PF], base), flow[b], "1e-9") /\ DEq(ri.branch[b][PT], DNeg(ri.branch[b][PF]))
                                                       /\ DEq(ri.branch[b][QF], 0) /\ DEq(ri.branch[b][QT], 0)>>,
     <<"ReferenceAngles", \A k \in Refs(i) : DNear(x[k], Rad(i.bus[k][VA]), tol)>>,
     <<"OutputLimits", Within(pg, Per(i, i.gen, PMIN), Per(i, i.gen, PMAX), tol)>>,
     <<"FlowLimits", DLe(DNeg(tol), InFlows(i, va, 1)) /\ DLe(DNeg(tol), InFlows(i, va, -1))>>,
     <<"AngleLimits", DLe(DNeg(tol), Angles(e, m))>>,
     <<"UserLimits", UserRowsKept(e, m, tol)>>,
     <<"ObjectiveReported", DClose(e.f, obj, "1e-9")>>,
     <<"UserCostReported", DClose(e.cost, user, "1e-9")>>,
     <<"CostOfDispatch", LET d == DAdd(DispatchCost(PCost(i), base, m.out), user) IN
          /\ DLe(d, DAdd(e.f, DMul(DAdd(1, Len(m.w)), DMul(tol, "1e4"))))
          /\ DLe(e.f, DSum(<<d, DMul(DMul(DAdd(1, Len(m.w)), DMul(4, e.comptol)), DAdd(1, MaxAbs(x))), "1e-6">>))>>,
     <<"ReactivePricesZero", AllZero(ri.bus, DOMAIN ri.bus, {LAMQ, MUVMAX, MUVMIN}) /\ AllZero(ri.gen, DOMAIN ri.gen, {MUQMAX, MUQMIN})>>,
     <<"PricesMatchRecords", /\ \A k \in 1..ng : NearMu(DMul(base, ri.gen[k][MUPMAX]), e.var.Pg.u[k]) /\ NearMu(DMul(base, ri.gen[k][MUPMIN]), e.var.Pg.l[k])
                             /\ \A k \in 1..nb : NearMu(lam[k], DSub(LinU(e, "Pmis", nb)[k], LinL(e, "Pmis", nb)[k]))
                             /\ \A k \in DOMAIN il : NearMu(DMul(base, ri.branch[il[k]][MUSF]), LinU(e, "Pf", Len(il))[k]) /\ NearMu(DMul(base, ri.branch[il[k]][MUST]), LinU(e, "Pt", Len(il))[k])>>,
     <<"UnlimitedBranchesPriceless", \A b \in DOMAIN i.branch \ Rng(il) : DEq(ri.branch[b][MUSF], 0) /\ DEq(ri.branch[b][MUST], 0)>>,
     <<"PricesOfLimitsNonnegative", Signs(e, m)>>,
     <<"FlowSlackness", \A k \in DOMAIN il : LET b == il[k]  cap == DDiv(i.branch[b][RATEA], base) IN
          Slack(e, mult, x, DMul(base, ri.branch[b][MUSF]), DAbs(DSub(cap, flow[b]))) /\ Slack(e, mult, x, DMul(base, ri.branch[b][MUST]), DAbs(DAdd(cap, flow[b])))>>,
     <<"OutputSlackness", Slacks(e, mult, x, e.var.Pg.u, pg, Per(i, i.gen, PMAX)) /\ Slacks(e, mult, x, e.var.Pg.l, pg, Per(i, i.gen, PMIN))>>,
     <<"Stationary", \A k \in DOMAIN x : Stationary(k)>>})

-----------------------------------------------------------------------------
(* user data in the case's own order means the same whatever that order is:  *)
(* the same problem with equipment listed in another order, and numbered     *)
(* otherwise, has the same solution                                          *)
Twins(e) ==
    IF e.a.success # e.b.success THEN {"TwinSolved"} ELSE IF ~e.a.success THEN {} ELSE
    Failing({<<"TwinObjective", DClose(e.a.f, e.b.f, e.tol)>>,
             <<"TwinDispatch", Len(e.a.pg) = Len(e.b.pg) /\ \A k \in DOMAIN e.a.pg : DNear(e.a.pg[k], e.b.pg[e.at[k] + 1], e.near)>>,
             <<"TwinUserVariables", Len(e.a.z) = Len(e.b.z) /\ \A k \in DOMAIN e.a.z : DNear(e.a.z[k], e.b.z[k], e.near)>>})
(* nearly all easy cases are solved *)
Rate(e) == Failing({<<"MostCasesSolved", e.solved * 100 >= e.tried * e.percent>>})
Refused(e) == Failing({<<"ImpossibleNotSolved", ~e.success>>, <<"Impossible", Impossible(Inside(e.c, e.perm))>>})
Verdict(e) == CASE e.ev = "feasible" -> Feasible(e) [] e.ev = "prices" -> Prices(e) [] e.ev = "dc" -> LossFree(e) [] e.ev = "twins" -> Twins(e)
               [] e.ev = "rate" -> Rate(e) [] e.ev = "refused" -> Refused(e) [] e.ev = "higher" -> Failing({<<"HigherCostsRefused", e.rejected>>})
               [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
