---------------------------- MODULE DcLinesTrace ----------------------------
(* e.c the case, e.lines its DC lines (status may be off, terminals isolated) *)
(* and e.costs theirs, e.r what came back with e.dl, the lines solved         *)
EXTENDS TraceRun, OpfSolution
D == INSTANCE DcLines

LF == 1  LT == 2  LST == 3  LPF == 4  LPT == 5  LQF == 6  LQT == 7  LVF == 8  LVT == 9  LMIN == 10  LMAX == 11
LQMINF == 12  LQMAXF == 13  LQMINT == 14  LQMAXT == 15  L0 == 16  L1 == 17
LMUMIN == 18  LMUMAX == 19  LMUQMINF == 20  LMUQMAXF == 21  LMUQMINT == 22  LMUQMAXT == 23

OutBuses(c) == {c.bus[k][BUSI] : k \in {k \in DOMAIN c.bus : c.bus[k][BTYPE] = ISOLATED}}
Net2(c, lines) == [lines |-> [k \in DOMAIN lines |-> [on |-> DLt(0, lines[k][LST]), f |-> lines[k][LF], t |-> lines[k][LT]]], dead |-> OutBuses(c), units |-> <<>>]
LinesOn(e) == D!LiveLines(Net2(e.c, e.lines))

\* the case with its lines in the form of units: rows dl give the flows
Unit(bus, p, q, qmax, qmin) == [j \in 1..25 |-> IF j = GBUS THEN bus ELSE IF j = PG THEN p ELSE IF j = QG THEN q ELSE IF j = QMAX THEN qmax
                                                ELSE IF j = QMIN THEN qmin ELSE IF j = GSTAT THEN 1 ELSE 0]
WithLines(t, live, dl) ==
    [t EXCEPT !.gen = t.gen \o [k \in DOMAIN live |-> LET w == dl[live[k]] IN Unit(w[LF], DNeg(w[LPF]), w[LQF], w[LQMAXF], w[LQMINF])]
                            \o [k \in DOMAIN live |-> LET w == dl[live[k]] IN Unit(w[LT], w[LPT], w[LQT], w[LQMAXT], w[LQMINT])]]
BalanceWithLines(e, live, tol) == LET r == TLCEval(WithLines(e.r, live, e.dl))  on == OnBus(e.c) IN
    IF e.dc THEN \A k \in DOMAIN on : DNear(ResidualDC(r, on[k]), 0, tol)
    ELSE LET v == TLCEval(Volts(r)) IN \A k \in DOMAIN on : CNear(Residual(r, on[k], v), <<0, 0>>, tol)
\* the share of an end's reactive output at its bus: as PowerFlow's
Shared2(e, live, k) ==
    LET r == WithLines(e.r, live, e.dl)  u == UnitsAt(r, k)
        width(q) == DSub(r.gen[u[q]][QMAX], r.gen[u[q]][QMIN])
        over(q) == DSub(r.gen[u[q]][QG], r.gen[u[q]][QMIN])
        tot == DSum([q \in DOMAIN u |-> width(q)])
        tol == DMul("1e-8", DAdd(1, DMul(e.c.baseMVA, DAdd(1, DAbs(tot)))))
    IN (Len(u) > 1 /\ ~DEq(tot, 0)) => \A q \in DOMAIN u : \A p \in DOMAIN u : DNear(DMul(over(q), width(p)), DMul(over(p), width(q)), tol)

LossLaw(w, tol) == DNear(w[LPT], DSub(w[LPF], DAdd(w[L0], DMul(w[L1], w[LPF]))), tol)
Shaped(e, n) == /\ Len(e.dl) = Len(e.lines) /\ \A k \in DOMAIN e.dl : Len(e.dl[k]) >= n /\ \A j \in 1..n : DFinite(e.dl[k][j])
                /\ Len(e.r.gen) = Len(e.c.gen) /\ Len(e.r.bus) = Len(e.c.bus) /\ Len(e.r.branch) = Len(e.c.branch)
DataKept(e, live, also) ==
    /\ \A k \in DOMAIN e.lines : \A j \in 1..17 : (k \in Rng(live) /\ j \in also) \/ DSame(e.dl[k][j], e.lines[k][j])
    /\ e.ev = "opf" => \A k \in DOMAIN e.dl : k \in Rng(live) \/ \A j \in 18..Len(e.dl[k]) : DEq(e.dl[k][j], 0)
    /\ DSameMat(e.costsback, e.costs) /\ DSameMat(e.r.gencost, e.c.gencost)
CaseKept(e) == /\ \A k \in DOMAIN e.c.branch : \A j \in 1..13 : DSame(e.r.branch[k][j], e.c.branch[k][j])
               /\ \A k \in DOMAIN e.c.gen : \A j \in {1, 4, 5, 8, 9, 10} : DSame(e.r.gen[k][j], e.c.gen[k][j])
               /\ \A k \in DOMAIN e.c.bus : \A j \in {1} \cup (3..7) \cup (10..13) : DSame(e.r.bus[k][j], e.c.bus[k][j])

BestAt(r, p, q, tol) == IF ~DEq(r[MODEL], PWL) THEN DNear(PolyAt(r, p, 1), q, tol)
    ELSE LET xs == Xs(r)  n == NC(r)  here == PwlAt(r, p)  trifle == DMul("1e-4", DSum(<<1, DAbs(here)>>)) IN
         \A k \in DOMAIN xs : DLe(DSub(here, DMul(q, p)), DSum(<<Ys(r)[k], DNeg(DMul(q, xs[k])), trifle>>))

Solution(e) ==
    IF ~e.success THEN {} ELSE IF ~Shaped(e, 23) THEN {"Shape"} ELSE
    LET c == e.c  live == TLCEval(LinesOn(e))  L == Rng(live)
        tol == DMul("1e-5", c.baseMVA)
        ptol == DSum(<<DMul("1e-4", DSum(<<1, e.scale>>)), IF e.dc THEN 0 ELSE DDiv("0.2", c.baseMVA)>>)
        cost(k) == IF e.costs = <<>> THEN <<2, 0, 0, 2, 0, 0>> ELSE e.costs[k]
        lamp(no) == e.r.bus[BusRow(c, no)][LAMP]   lamq(no) == e.r.bus[BusRow(c, no)][LAMQ]
        at(w, j) == IF DLt(w[j], 0) THEN w[LPT] ELSE w[LPF]                   \* the flow a limit is for
        part(w, j) == IF DLt(w[j], 0) THEN DSub(1, w[L1]) ELSE 1              \* and what a MW drawn adds to it
        price(w) == DSum(<<DMul(DSub(1, w[L1]), lamp(w[LT])), DNeg(lamp(w[LF])), DMul(part(w, LMIN), w[LMUMIN]), DNeg(DMul(part(w, LMAX), w[LMUMAX]))>>)
        mutol == DMul(ptol, c.baseMVA)
        ng == Len(c.gen)  on == OnGen(c)
        costly == Len(c.gencost) = 2 * ng /\ ~e.dc
        worth(g) == DSub(lamp(c.gen[g][GBUS]), DSub(e.r.gen[g][MUPMAX], e.r.gen[g][MUPMIN]))
        plain(u) == e.dc \/ ~(DLt(c.gen[u][PMIN], 0) /\ DEq(c.gen[u][PMAX], 0))
    IN Failing({
    <<"Balance", BalanceWithLines(e, live, tol)>>,
    <<"Losses", \A k \in L : LossLaw(e.dl[k], tol)>>,
    <<"WithinLimits", \A k \in L : LET w == e.dl[k] IN DLe(DSub(w[LMIN], tol), at(w, LMIN)) /\ DLe(at(w, LMAX), DAdd(w[LMAX], tol))>>,
    <<"ReactiveLimits", \A k \in L : LET w == e.dl[k] IN IF e.dc THEN DEq(w[LQF], 0) /\ DEq(w[LQT], 0) ELSE
          /\ DLe(DSub(w[LQMINF], tol), w[LQF]) /\ DLe(w[LQF], DAdd(w[LQMAXF], tol))
          /\ DLe(DSub(w[LQMINT], tol), w[LQT]) /\ DLe(w[LQT], DAdd(w[LQMAXT], tol))>>,
    <<"TerminalVoltages", e.dc \/ \A k \in L : LET w == e.dl[k] IN
          DNear(w[LVF], e.r.bus[BusRow(c, w[LF])][VM], "1e-9") /\ DNear(w[LVT], e.r.bus[BusRow(c, w[LT])][VM], "1e-9")>>,
    <<"MultipliersOnBinding", \A k \in L : LET w == e.dl[k] IN
          /\ \A j \in LMUMIN..LMUQMAXT : DLe(DNeg(ptol), w[j])
          /\ Pair(w[LMUMIN], DSub(at(w, LMIN), w[LMIN]), mutol) /\ Pair(w[LMUMAX], DSub(w[LMAX], at(w, LMAX)), mutol)
          /\ (IF e.dc THEN \A j \in LMUQMINF..LMUQMAXT : DEq(w[j], 0) ELSE
              /\ Pair(w[LMUQMINF], DSub(w[LQF], w[LQMINF]), mutol) /\ Pair(w[LMUQMAXF], DSub(w[LQMAXF], w[LQF]), mutol)
              /\ Pair(w[LMUQMINT], DSub(w[LQT], w[LQMINT]), mutol) /\ Pair(w[LMUQMAXT], DSub(w[LQMAXT], w[LQT]), mutol))>>,
    <<"FlowOptimal", \A k \in L : BestAt(cost(k), e.dl[k][LPF], price(e.dl[k]), ptol)>>,
    <<"ReactiveOptimal", e.dc \/ \A k \in L : LET w == e.dl[k] IN
          /\ DNear(lamq(w[LF]), DSub(w[LMUQMAXF], w[LMUQMINF]), ptol) /\ DNear(lamq(w[LT]), DSub(w[LMUQMAXT], w[LMUQMINT]), ptol)>>,
    <<"DispatchOptimal", \A q \in DOMAIN on : plain(on[q]) => BestAt(c.gencost[on[q]], e.r.gen[on[q]][PG], worth(on[q]), ptol)>>,
    <<"ObjectiveIncludesIt", DClose(e.f, DSum(<<DSum([q \in DOMAIN on |-> CostAt(c.gencost[on[q]], e.r.gen[on[q]][PG])]),
          IF costly THEN DSum([q \in DOMAIN on |-> CostAt(c.gencost[ng + on[q]], e.r.gen[on[q]][QG])]) ELSE 0,
          DSum([q \in DOMAIN live |-> CostAt(cost(live[q]), e.dl[live[q]][LPF])])>>), "1e-6")>>,
    <<"DataKept", DataKept(e, live, {LPF, LPT, LQF, LQT, LVF, LVT})>>, <<"CaseKept", CaseKept(e)>>})

\* power flow: the flows are as given, the ends hold their voltages
Flow(e) ==
    IF ~e.success THEN {} ELSE IF ~Shaped(e, 17) THEN {"Shape"} ELSE
    LET c == e.c  live == TLCEval(LinesOn(e))  L == Rng(live)  tol == DMul("1e-6", c.baseMVA)
        slack == {UnitsAt(c, k)[1] : k \in TheRef(c)}
    IN Failing({
    <<"Balance", BalanceWithLines(e, live, tol)>>,
    <<"FlowAsGiven", \A k \in L : DClose(e.dl[k][LPF], e.lines[k][LPF], "1e-12")>>,
    <<"Losses", \A k \in L : LossLaw(e.dl[k], DMul("1e-9", c.baseMVA))>>,
    <<"TerminalVoltages", e.dc \/ \A k \in L : \A j \in {LF, LT} : LET no == e.lines[k][j]  b == BusRow(c, no) IN
          DNear(e.r.bus[b][VM], e.lines[k][IF j = LF THEN LVF ELSE LVT], "1e-9")>>,
    <<"ReactiveSharing", e.dc \/ \A k \in Rng(OnBus(c)) : Shared2(e, live, k)>>,
    <<"OnlySlackMoves", \A j \in Rng(OnGen(c)) : j \in slack \/ DSame(e.r.gen[j][PG], c.gen[j][PG])>>,
    <<"DataKept", DataKept(e, live, {LPF, LPT, LQF, LQT})>>, <<"CaseKept", CaseKept(e)>>})

Shown(t, x) == DNear(t, x, "0.00501")
Printed(e) == LET live == LinesOn(e)  L == Rng(live)
                  loss(w) == DSub(w[LPF], w[LPT])
                  mu(w, j) == IF Len(w) >= j THEN w[j] ELSE 0
                  price(t, m) == IF t = "-" THEN DLe(m, "1.0000001e-4") ELSE DLe("0.9999999e-4", m) /\ DNear(t, m, "0.000501")
                  head(k, w) == DEq(w[1], k - 1) /\ DEq(w[2], e.dl[k][LF]) /\ DEq(w[3], e.dl[k][LT])
              IN Failing({
    <<"ReportFlows", Len(e.rows) = Len(e.dl) /\ \A k \in DOMAIN e.rows : LET w == e.rows[k]  d == e.dl[k] IN
        Len(w) = 8 /\ head(k, w) /\ (IF ~DLt(0, d[LST]) THEN \A j \in 4..8 : w[j] = "-" ELSE
            Shown(w[4], d[LPF]) /\ Shown(w[5], d[LPT]) /\ Shown(w[6], loss(d)) /\ Shown(w[7], d[LQF]) /\ Shown(w[8], d[LQT]))>>,
    <<"ReportTotal", Shown(e.total, DSum([k \in DOMAIN e.dl |-> IF DLt(0, e.dl[k][LST]) THEN loss(e.dl[k]) ELSE 0]))>>,
    <<"ReportLimits", Len(e.limits) = Len(e.dl) /\ \A k \in DOMAIN e.limits : LET w == e.limits[k]  d == e.dl[k] IN
        Len(w) = 8 /\ head(k, w) /\ (IF ~DLt(0, d[LST]) THEN \A j \in 4..8 : w[j] = "-" ELSE
            price(w[4], mu(d, LMUMIN)) /\ Shown(w[5], d[LMIN]) /\ Shown(w[6], d[LPF]) /\ Shown(w[7], d[LMAX]) /\ price(w[8], mu(d, LMUMAX)))>>})

\* the one line in service must draw more than its bus can get
Impossible(e) == LET c == e.c  w == e.lines[1]  k == BusRow(c, w[LF])  u == UnitsAt(c, k)
                     b == {q \in Rng(OnBranch(c)) : FromPos(c, q) = k \/ ToPos(c, q) = k}  s == CHOOSE z \in [1..Cardinality(b) -> b] : \A x, y \in DOMAIN z : z[x] = z[y] => x = y IN
    /\ LinesOn(e) = <<1>> /\ \A q \in b : DLt(0, c.branch[q][RATEA])
    /\ DLe(0, c.bus[k][PD]) /\ DLe(0, c.bus[k][GS])
    /\ DLt(DSum(<<DSum([x \in DOMAIN s |-> c.branch[s[x]][RATEA]]), DSum([x \in DOMAIN u |-> DMax(0, c.gen[u[x]][PMAX])]), "0.01">>), w[LMIN])
Verdict(e) == CASE e.ev = "opf" -> Failing({<<"InputUntouched", e.untouched>>}) \cup Solution(e)
                [] e.ev = "pf" -> Failing({<<"InputUntouched", e.untouched>>}) \cup Flow(e)
                [] e.ev = "printed" -> Printed(e)
                [] e.ev = "back" -> Failing({<<"InputUntouched", e.untouched>>, <<"DataKept", DSameMat(e.dl, e.shown) /\ DSameMat(e.costsback, e.costs)>>, <<"CaseKept", CaseKept(e)>>})
                [] e.ev = "off" -> Failing({<<"SameAsWithout", e.same>>})
                [] e.ev = "impossible" -> Failing({<<"Premise", Impossible(e)>>, <<"NotReportedSolved", ~e.success>>})
                [] e.ev = "bad" -> Failing({<<"BadDataRefused", e.rejected>>})
                [] e.ev = "rate" -> Failing({<<"MostAreSolved", 100 * e.solved >= e.percent * e.tried>>})
                [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
