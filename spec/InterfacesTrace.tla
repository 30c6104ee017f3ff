-------------------------- MODULE InterfacesTrace --------------------------
EXTENDS TraceRun, Interfaces
N == INSTANCE OpfSolution
LOCAL INSTANCE Dec
DNear(a, b, tol) == N!DNear(a, b, tol)

\* map: rows <<interface, branch, direction>>; lims: <<interface, lower, upper>>
Parts3(e, i) == LET live == N!Rng(N!OnBranch(e.c)) IN Select([k \in DOMAIN e.map |-> [i |-> e.map[k][1], b |-> e.map[k][2], d |-> e.map[k][3]]], LAMBDA m : m.i = i /\ m.b \in live)
Flow(e, k, f(_)) == LET p == Parts3(e, e.lims[k][1]) IN DSum([j \in DOMAIN p |-> DMul(p[j].d, f(p[j].b))])
DcFlow(e, b) == LET br == e.c.branch[b] IN DMul(e.c.baseMVA, N!FlowDC(br, e.r.bus[N!FromPos(e.c, b)][N!VA], e.r.bus[N!ToPos(e.c, b)][N!VA]))
BestAt(r, p, q, tol) == IF ~DEq(r[N!MODEL], N!PWL) THEN DNear(N!PolyAt(r, p, 1), q, tol)
    ELSE LET xs == N!Xs(r)  n == N!NC(r)  here == N!PwlAt(r, p)  trifle == DMul("1e-4", DSum(<<1, DAbs(here)>>)) IN
         \A k \in DOMAIN xs : DLe(DSub(here, DMul(q, p)), DSum(<<N!Ys(r)[k], DNeg(DMul(q, xs[k])), trifle>>))

Solution(e) ==
    IF ~e.success THEN {} ELSE
    LET c == e.c  n == Len(e.lims)
        tol == DMul("1e-4", c.baseMVA)
        \* the AC solver drops multipliers below 1e-5 of a cost scaled by 1e-4
        ptol == DSum(<<DMul("1e-4", DSum(<<1, e.scale>>)), IF e.dc THEN 0 ELSE DDiv("0.2", c.baseMVA)>>)
        modelled(k) == Flow(e, k, LAMBDA b : DcFlow(e, b))
        reported(k) == Flow(e, k, LAMBDA b : e.r.branch[b][N!PF])
        on == N!OnBranch(c)  units == N!OnGen(c)
        \* what an angle difference across branch b is worth
        push(b) == DSum(<<e.r.bus[N!FromPos(c, b)][N!LAMP], DNeg(e.r.bus[N!ToPos(c, b)][N!LAMP]), e.r.branch[b][N!MUSF], DNeg(e.r.branch[b][N!MUST]),
                          DSum([k \in 1..n |-> LET p == Parts3(e, e.lims[k][1]) IN
                                DMul(DDiv(DSub(e.u[k], e.l[k]), c.baseMVA), DSum([j \in DOMAIN p |-> IF p[j].b = b THEN p[j].d ELSE 0]))])>>)
        pushes == TLCEval([q \in DOMAIN on |-> DMul(N!SusDC(c.branch[on[q]]), push(on[q]))])
        atBus(k) == DSum([q \in DOMAIN on |-> IF N!FromPos(c, on[q]) = k THEN pushes[q] ELSE IF N!ToPos(c, on[q]) = k THEN DNeg(pushes[q]) ELSE 0])
        stiff == DSum([q \in DOMAIN on |-> DAbs(N!SusDC(c.branch[on[q]]))])
        worth(g) == DSub(e.r.bus[N!BusRow(c, c.gen[g][N!GBUS])][N!LAMP], DSub(e.r.gen[g][N!MUPMAX], e.r.gen[g][N!MUPMIN]))
    IN IF Len(e.P) # n \/ Len(e.l) # n \/ Len(e.u) # n THEN {"Shape"} ELSE Failing({
    <<"FlowReported", \A k \in 1..n : DClose(e.P[k], reported(k), "1e-9")>>,
    <<"FlowOfTheModel", e.dc => \A k \in 1..n : DNear(e.P[k], modelled(k), tol)>>,
    <<"WithinLimits", \A k \in 1..n : LET f == modelled(k) IN DLe(DSub(e.lims[k][2], tol), f) /\ DLe(f, DAdd(e.lims[k][3], tol))>>,
    <<"MultipliersOnBinding", \A k \in 1..n : LET f == modelled(k) IN
        /\ DLe(DNeg(ptol), e.l[k]) /\ DLe(DNeg(ptol), e.u[k])
        /\ N!Pair(DDiv(e.l[k], c.baseMVA), DSub(f, e.lims[k][2]), DMul(ptol, c.baseMVA)) /\ N!Pair(DDiv(e.u[k], c.baseMVA), DSub(e.lims[k][3], f), DMul(ptol, c.baseMVA))>>,
    \* at the reported prices no other angles and no other dispatch do better
    <<"AnglesOptimal", e.dc => \A k \in N!Rng(N!OnBus(c)) : DNear(atBus(k), 0, DMul(ptol, stiff))>>,
    <<"DispatchOptimal", e.dc => \A q \in DOMAIN units : BestAt(c.gencost[units[q]], e.r.gen[units[q]][N!PG], worth(units[q]), ptol)>>,
    <<"DataKept", e.mapback = e.map /\ DSameMat(e.limsback, e.lims)>>,
    <<"CaseKept", /\ \A k \in DOMAIN c.branch : \A j \in 1..13 : DSame(e.r.branch[k][j], c.branch[k][j])
                  /\ \A k \in DOMAIN c.gen : \A j \in {1, 8, 9, 10} : DSame(e.r.gen[k][j], c.gen[k][j])>>})

Shown(t, x, half) == DNear(t, x, half)
Price(t, m) == IF t = "-" THEN DLe(m, "1.0000001e-6") ELSE DLe("0.9999999e-6", m) /\ Shown(t, m, "0.000501")
Printed(e) == Failing({<<"ReportRows", Len(e.rows) = Len(e.lims) /\ \A k \in DOMAIN e.rows : LET w == e.rows[k] IN
    /\ Len(w) = 6 /\ DEq(w[1], e.lims[k][1]) /\ Price(w[2], e.l[k])
    /\ Shown(w[3], e.lims[k][2], "0.00501") /\ Shown(w[4], e.P[k], "0.00501") /\ Shown(w[5], e.lims[k][3], "0.00501") /\ Price(w[6], e.u[k])>>})

\* branches with ratings that cannot carry what the limits demand
Impossible(e) == LET c == e.c IN \E k \in DOMAIN e.lims : LET p == Parts3(e, e.lims[k][1]) IN
    /\ \A j \in DOMAIN p : DLt(0, c.branch[p[j].b][N!RATEA])
    /\ DLt(DAdd(DSum([j \in DOMAIN p |-> c.branch[p[j].b][N!RATEA]]), "0.01"), e.lims[k][2])
Verdict(e) == CASE e.ev = "iflims" -> Failing({<<"InputUntouched", e.untouched>>}) \cup Solution(e)
                [] e.ev = "printed" -> Printed(e)
                [] e.ev = "passing" -> Failing({<<"InputUntouched", e.untouched>>, <<"DataKept", e.mapback = e.map /\ DSameMat(e.limsback, e.lims)>>})
                [] e.ev = "impossible" -> Failing({<<"Premise", Impossible(e)>>, <<"NotReportedSolved", ~e.success>>})
                [] e.ev = "rate" -> Failing({<<"MostAreSolved", 100 * e.solved >= e.percent * e.tried>>})
                [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
