--------------------------- MODULE ReservesTrace ---------------------------
EXTENDS TraceRun, OpfSolution, Reserves

RAMP10 == 18
Bound(c, res, qty, u) == LET a == IF DEq(c.gen[u][RAMP10], 0) THEN "inf" ELSE c.gen[u][RAMP10] IN IF res.qty = <<>> THEN a ELSE DMin(a, qty[u])
Price(e, u) == DDiv(DSum([z \in DOMAIN e.res.zones |-> IF e.res.zones[z][u] # 0 THEN e.lam[z] ELSE 0]), e.c.baseMVA)
\* at the price q no other output is better than p by more than a trifle
BestAt(r, p, q, tol) == IF ~DEq(r[MODEL], PWL) THEN DNear(PolyAt(r, p, 1), q, tol)
    ELSE LET xs == Xs(r)  n == NC(r)  here == PwlAt(r, p)  trifle == DMul("1e-4", DSum(<<1, DAbs(here)>>)) IN
         /\ DLe(p, xs[1]) => DLe(q, DAdd(Slope(r, 1), tol))
         /\ DLe(xs[n], p) => DLe(DSub(Slope(r, n - 1), tol), q)
         /\ \A k \in DOMAIN xs : DLe(DSub(here, DMul(q, p)), DSum(<<Ys(r)[k], DNeg(DMul(q, xs[k])), trifle>>))

Lengths(e, n) == \A f \in {"R", "Rmin", "Rmax", "mul", "muu", "mup", "prc"} : Len(e.rr[f]) = n /\ \A k \in 1..n : DFinite(e.rr[f][k]) \/ f = "Rmax"
RowsMatch(a, b, cols) == Len(a) = Len(b) /\ \A k \in DOMAIN a : \A j \in cols : DSame(a[k][j], b[k][j])
Solution(e) ==
    IF ~e.success THEN {} ELSE
    LET c == e.c  res == e.res  rr == e.rr  n == Len(c.gen)
        live == Rng(OnGen(c))   E == Eligible(res.zones, n)   can == E \cap live
        cost == TLCEval(Spread(res.cost, res.zones, n, 0))   qty == TLCEval(Spread(res.qty, res.zones, n, 0))
        tol == DMul("1e-5", c.baseMVA)
        \* the AC solver drops multipliers below 1e-5 of a cost scaled by 1e-4
        ptol == DSum(<<DMul("1e-4", DSum(<<1, e.scale>>)), IF e.dc THEN 0 ELSE DDiv("0.2", c.baseMVA)>>)
        head(u) == DSub(DSub(c.gen[u][PMAX], e.r.gen[u][PG]), rr.R[u])
        inz(z) == Indices(n, LAMBDA u : u \in can /\ res.zones[z][u] # 0)
        given(z) == LET s == inz(z) IN DSum([k \in DOMAIN s |-> rr.R[s[k]]])
        bus(u) == BusRow(c, c.gen[u][GBUS])
        \* a load at constant power factor has a price on its reactive part too
        plain(u) == e.dc \/ ~(DLt(c.gen[u][PMIN], 0) /\ DEq(c.gen[u][PMAX], 0))
        worth(u) == DSub(e.r.bus[bus(u)][LAMP], DAdd(DSub(e.r.gen[u][MUPMAX], e.r.gen[u][MUPMIN]), rr.mup[u]))
    IN IF ~Lengths(e, n) \/ Len(e.lam) # Len(res.zones) THEN {"Shape"} ELSE Failing({
    <<"OnlyUnitsThatCan", \A u \in 1..n \ can : /\ \A f \in {"R", "Rmin", "Rmax", "mul", "muu", "mup"} : DEq(rr[f][u], 0)
                                                /\ (DEq(rr.prc[u], 0) \/ (u \in E /\ DClose(rr.prc[u], Price(e, u), "1e-9")))>>,
    <<"LimitsOfTheUnit", \A u \in can : DEq(rr.Rmin[u], 0) /\ (IF DFinite(Bound(c, res, qty, u)) THEN DClose(rr.Rmax[u], Bound(c, res, qty, u), "1e-9") ELSE ~DFinite(rr.Rmax[u]))>>,
    <<"WithinLimits", \A u \in can : DLe(DNeg(tol), rr.R[u]) /\ (~DFinite(Bound(c, res, qty, u)) \/ DLe(rr.R[u], DAdd(Bound(c, res, qty, u), tol)))>>,
    <<"WithinHeadroom", \A u \in can : DLe(DNeg(tol), head(u))>>,
    <<"RequirementsMet", \A z \in DOMAIN res.zones : DLe(DSub(res.req[z], tol), given(z))>>,
    <<"ReserveCost", DClose(e.total, DSum([u \in 1..n |-> IF u \in can THEN DMul(cost[u], rr.R[u]) ELSE 0]), "1e-6")>>,
    <<"ObjectiveIncludesIt", LET on == OnGen(c) IN DClose(e.f, DAdd(e.total, DSum([k \in DOMAIN on |-> CostAt(c.gencost[on[k]], e.r.gen[on[k]][PG])])), "1e-6")>>,
    <<"PriceOfTheUnit", \A u \in can : DClose(rr.prc[u], Price(e, u), "1e-9")>>,
    <<"PricesOnBindingOnly", /\ \A z \in DOMAIN res.zones : DLe(DNeg(ptol), e.lam[z]) /\ Pair(DDiv(e.lam[z], c.baseMVA), DSub(given(z), res.req[z]), DMul(ptol, c.baseMVA))
          /\ \A u \in can : /\ \A f \in {"mul", "muu", "mup"} : DLe(DNeg(ptol), rr[f][u])
                            /\ Pair(rr.mul[u], rr.R[u], DMul(ptol, c.baseMVA)) /\ Pair(rr.mup[u], head(u), DMul(ptol, c.baseMVA))
                            /\ (IF ~DFinite(Bound(c, res, qty, u)) THEN DNear(rr.muu[u], 0, ptol) ELSE Pair(rr.muu[u], DSub(Bound(c, res, qty, u), rr.R[u]), DMul(ptol, c.baseMVA)))>>,
    <<"ReserveOptimal", \A u \in can : DNear(DSum(<<cost[u], DNeg(rr.prc[u]), DNeg(rr.mul[u]), rr.muu[u], rr.mup[u]>>), 0, ptol)>>,
    <<"DispatchOptimal", \A u \in live : plain(u) => BestAt(c.gencost[u], e.r.gen[u][PG], worth(u), ptol)>>,
    <<"DataKept", /\ DSameMat(rr.zones, res.zones) /\ DSameSeq(rr.req, res.req) /\ DSameSeq(rr.cost, res.cost) /\ DSameSeq(rr.qty, res.qty)
                  /\ RowsMatch(e.r.gen, c.gen, {GBUS, PMAX, PMIN, GSTAT, RAMP10}) /\ DSameMat(e.r.gencost, c.gencost)>>})

\* what the report says about them: numbers to two places
Shown(t, x) == t = "-" \/ DNear(t, x, "0.00501")
Printed(e) ==
    LET rr == e.rr  n == Len(rr.R)  E == Indices(n, LAMBDA u : InZone(e.res.zones, u))
        zonesOf(u) == Indices(Len(e.res.zones), LAMBDA z : e.res.zones[z][u] # 0)
        dash(u, x) == ~(e.c.gen[u][GSTAT] > 0 /\ DLt("1e-6", DAbs(x)))
        val(t, u, x) == (t = "-") = dash(u, x) /\ Shown(t, x)
        line(k, row) == LET u == E[k] IN row[1] = u - 1 /\ row[2] = e.c.gen[u][GBUS] /\ row[3] = e.c.gen[u][GSTAT]
        tot == DSum([k \in DOMAIN E |-> rr.R[E[k]]])
    IN Failing({
    <<"ReportUnits", Len(e.units) = Len(E) /\ \A k \in DOMAIN E : LET w == e.units[k]  z == zonesOf(E[k]) IN
        /\ line(k, w) /\ val(w[4], E[k], rr.R[E[k]]) /\ Shown(w[5], rr.prc[E[k]])
        /\ Len(w) = 5 + Len(z) /\ \A j \in DOMAIN z : DEq(w[5 + j], z[j] - 1)>>,
    <<"ReportTotals", Shown(e.totals[1], tot) /\ Shown(e.totals[2], e.total) /\ Shown(e.totals[3], tot)>>,
    <<"ReportZones", Len(e.zonerows) = Len(e.res.zones) /\ \A z \in DOMAIN e.zonerows : /\ e.zonerows[z][1] = z - 1
        /\ Shown(e.zonerows[z][2], DSum([u \in 1..n |-> IF e.res.zones[z][u] # 0 THEN rr.R[u] ELSE 0])) /\ Shown(e.zonerows[z][3], DDiv(e.lam[z], e.c.baseMVA))>>,
    <<"ReportLimits", Len(e.limits) = Len(E) /\ \A k \in DOMAIN E : LET w == e.limits[k]  u == E[k] IN
        /\ line(k, w) /\ val(w[4], u, rr.mul[u]) /\ Shown(w[5], rr.Rmin[u]) /\ val(w[6], u, rr.R[u])
        /\ (IF ~DFinite(rr.Rmax[u]) THEN w[7] = "inf" ELSE Shown(w[7], rr.Rmax[u])) /\ val(w[8], u, rr.muu[u]) /\ val(w[9], u, rr.mup[u])>>})

\* the most a zone can have
Capability(e, z) == LET c == e.c  n == Len(c.gen)  qty == Spread(e.res.qty, e.res.zones, n, 0)  live == Rng(OnGen(c)) IN
    DSum([u \in 1..n |-> IF u \in live /\ e.res.zones[z][u] # 0 THEN LET b == Bound(c, e.res, qty, u)  h == DSub(c.gen[u][PMAX], c.gen[u][PMIN]) IN
                         IF ~DFinite(b) THEN h ELSE DMin(b, h) ELSE 0])
Short(e) == Failing({<<"Premise", \E z \in DOMAIN e.res.zones : DLt(DAdd(Capability(e, z), "0.01"), e.res.req[z])>>, <<"NotReportedSolved", ~e.success>>})

Verdict(e) == CASE e.ev = "reserves" -> Failing({<<"InputUntouched", e.untouched>>}) \cup Solution(e)
                [] e.ev = "printed" -> Printed(e)
                [] e.ev = "passing" -> Failing({<<"InputUntouched", e.untouched>>, <<"DataKept",
                        DSameMat(e.rr.zones, e.res.zones) /\ DSameSeq(e.rr.req, e.res.req) /\ DSameSeq(e.rr.cost, e.res.cost) /\ DSameSeq(e.rr.qty, e.res.qty)>>})
                [] e.ev = "short" -> Short(e)
                [] e.ev = "bad" -> Failing({<<"BadDataRefused", e.rejected>>})
                [] e.ev = "rate" -> Failing({<<"MostAreSolved", 100 * e.solved >= e.percent * e.tried>>})
                [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
