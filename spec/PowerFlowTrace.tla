--------------------------- MODULE PowerFlowTrace ---------------------------
(* Conformance of the power flow routines with Network.                      *)
(*   e.c   the case given, e.r the case returned (both external)             *)
EXTENDS TraceRun, Network

AllSame(s, t) == DSameMat(s, t)
Drop(row, cols) == [k \in DOMAIN row |-> IF k \in cols THEN 0 ELSE row[k]]
SameBut(t, u, cols) == Len(t) = Len(u) /\ \A k \in DOMAIN t :
    LET n == Len(t[k]) IN Len(u[k]) >= n /\ DSameSeq(Drop(t[k], cols), Drop(SubSeq(u[k], 1, n), cols))

\* roles as the case declares them, reference completed as documented
PfTol(c, e) == DMul(c.baseMVA, DMul(2, e.tol))

Kept(c, r) == {
    <<"LoadsAndLimitsKept", SameBut(c.bus, r.bus, {VM, VA})>>,
    <<"GeneratorDataKept", SameBut(c.gen, r.gen, {PG, QG})>>,
    <<"BranchDataKept", SameBut(c.branch, r.branch, {PF, QF, PT, QT})>>,
    <<"IsolatedBusKept", \A k \in DOMAIN c.bus : c.bus[k][BTYPE] = ISOLATED => DSameSeq(c.bus[k], r.bus[k])>>,
    <<"OutOfServiceUnitsZero", \A k \in DOMAIN r.gen : k \notin Rng(OnGen(c)) => DEq(r.gen[k][PG], 0) /\ DEq(r.gen[k][QG], 0)>>,
    <<"OutOfServiceBranchesZero", \A k \in DOMAIN r.branch : k \notin Rng(OnBranch(c)) =>
          \A j \in {PF, QF, PT, QT} : DEq(r.branch[k][j], 0)>> }

\* the first in-service unit at each reference bus is the slack unit; first in the order of the case
Slack(c) == {UnitsAt(c, k)[1] : k \in TheRef(c)}

FlowsOk(c, r, v) == \A b \in Rng(OnBranch(c)) :
    LET br == c.branch[b]
        f == FromPos(c, b)
        t == ToPos(c, b)
        row == r.branch[b]
        scale == DMul(c.baseMVA, "1e-9")
    IN /\ CNear(CScale(c.baseMVA, PowF(br, v[f], v[t])), <<row[PF], row[QF]>>, scale)
       /\ CNear(CScale(c.baseMVA, PowT(br, v[f], v[t])), <<row[PT], row[QT]>>, scale)

\* Q sharing among the units of bus k: all at the same fraction of their range
Shared(c, r, k) ==
    LET u == UnitsAt(c, k)
        fin == \A q \in DOMAIN u : DFinite(c.gen[u[q]][QMAX]) /\ DFinite(c.gen[u[q]][QMIN])
        width(q) == DSub(c.gen[u[q]][QMAX], c.gen[u[q]][QMIN])
        over(q) == DSub(r.gen[u[q]][QG], c.gen[u[q]][QMIN])
        tot == DSum([q \in DOMAIN u |-> width(q)])
        tol == DMul("1e-8", DAdd(1, DMul(c.baseMVA, DAdd(1, DAbs(tot)))))
    IN (Len(u) > 1 /\ fin) =>
         IF DEq(tot, 0) THEN \A q \in DOMAIN u : DNear(r.gen[u[q]][QG], r.gen[u[1]][QG], tol)
         ELSE \A q \in DOMAIN u : \A p \in DOMAIN u :
                 DNear(DMul(over(q), width(p)), DMul(over(p), width(q)), tol)

Ac(e) ==
    LET c == e.c
        r == e.r
        v == Volts(r)
        on == OnBus(c)
        ctl == TheRef(c) \cup ThePV(c)
        res == [k \in DOMAIN on |-> Residual(r, on[k], v)]
    IN Failing(Kept(c, r) \cup {
      <<"ReportsSuccess", e.success>>,
      <<"PowerBalance", \A k \in DOMAIN on : CNear(res[k], <<0, 0>>, PfTol(c, e))>>,
      <<"FlowsFollowBranchModel", FlowsOk(c, r, v)>>,
      <<"LossesConsistent",
          LET ob == OnBranch(c)
              loss == DSum([q \in DOMAIN ob |-> DAdd(r.branch[ob[q]][PF], r.branch[ob[q]][PT])])
              net == DSum([k \in DOMAIN on |-> DSub(Scheduled(r, on[k])[1], ShuntDraw(r, on[k])[1])])
          IN DNear(loss, net, DMul(Len(on), PfTol(c, e)))>>,
      <<"VoltageSetPoints", \A k \in ctl : 
          \E j \in Rng(UnitsAt(c, k)) : DNear(r.bus[k][VM], c.gen[j][VG], "1e-9")>>,
      <<"ReferenceAngle", \A k \in TheRef(c) : DNear(r.bus[k][VA], c.bus[k][VA], "1e-8")>>,
      <<"RealOutputKept", \A j \in Rng(OnGen(c)) : j \in Slack(c) \/ DSame(r.gen[j][PG], c.gen[j][PG])>>,
      <<"ReactiveSharing", \A k \in Rng(on) : Shared(c, r, k)>>,
      <<"ReactiveScheduleKeptAtLoadBuses", \A k \in ThePQ(c) :
          DNear(Scheduled(c, k)[2], Scheduled(r, k)[2], PfTol(c, e))>>,
      <<"MethodsAgree", \A k \in Rng(on) :
          CNear(v[k], Polar(e.r1.bus[k][VM], e.r1.bus[k][VA]), e.agree)>> })

Dc(e) ==
    LET c == e.c
        r == e.r
        on == OnBus(c)
        tol == DMul(c.baseMVA, "1e-8")
    IN Failing(Kept(c, r) \cup {
      <<"ReportsSuccess", e.success>>,
      <<"LinearBalance", \A k \in DOMAIN on : DNear(ResidualDC(r, on[k]), 0, tol)>>,
      <<"FlowsProportionalToAngles", \A b \in Rng(OnBranch(c)) :
          DNear(r.branch[b][PF], DMul(c.baseMVA, FlowDC(c.branch[b], r.bus[FromPos(c, b)][VA], r.bus[ToPos(c, b)][VA])), tol)>>,
      <<"ToEndIsMinusFromEnd", \A b \in Rng(OnBranch(c)) : DEq(r.branch[b][PT], DNeg(r.branch[b][PF]))>>,
      <<"NoReactiveFlow", \A b \in Rng(OnBranch(c)) : DEq(r.branch[b][QF], 0) /\ DEq(r.branch[b][QT], 0)>>,
      <<"UnitVoltages", \A k \in Rng(on) : DEq(r.bus[k][VM], 1)>>,
      <<"ReferenceAngle", \A k \in TheRef(c) : DNear(r.bus[k][VA], c.bus[k][VA], "1e-10")>>,
      <<"OnlySlackMoves", \A j \in Rng(OnGen(c)) : j \in Slack(c) \/ DSame(r.gen[j][PG], c.gen[j][PG])>> })

Roles(e) ==
    LET c == e.c
        ext(s) == {OnBus(c)[k + 1] : k \in Rng(s)}
    IN IF ~HasReference(c) THEN {}
       ELSE Failing({
          <<"Returned", e.ok>>,
          <<"InputUntouched", e.untouched>>,
          <<"RolesPartitionAndFollowStatus", e.ok => /\ RolesOk(c, ext(e.ref), ext(e.pv), ext(e.pq))
                                                     /\ Len(e.ref) + Len(e.pv) + Len(e.pq) = Len(OnBus(c))>> })

\* pfsoln on an internal case: the voltages were given, not solved for
Update(e) ==
    LET c == e.c
        r == e.r
        v == e.v
        on == OnBus(c)
        mag(z) == CAbs(z)
        tol == DMul(c.baseMVA, "1e-8")
        net(k) == CAdd(CScale(c.baseMVA, BranchEnds(c, k, v)), ShuntDraw(r, k))
        ref == {k + 1 : k \in Rng(e.ref)}
        genq(k) == LET u == UnitsAt(c, k) IN DSum([q \in DOMAIN u |-> r.gen[u[q]][QG]])
        genp(k) == LET u == UnitsAt(c, k) IN DSum([q \in DOMAIN u |-> r.gen[u[q]][PG]])
    IN Failing({
      <<"VoltagesStored", \A k \in DOMAIN c.bus : CNear(Polar(r.bus[k][VM], r.bus[k][VA]), v[k], "1e-12")>>,
      <<"LoadsAndLimitsKept", SameBut(c.bus, r.bus, {VM, VA})>>,
      <<"GeneratorDataKept", SameBut(c.gen, r.gen, {PG, QG})>>,
      <<"BranchDataKept", SameBut(c.branch, r.branch, {PF, QF, PT, QT})>>,
      <<"InactiveUnitsZeroReactive", \A j \in DOMAIN r.gen : c.gen[j][GSTAT] > 0 \/ DEq(r.gen[j][QG], 0)>>,
      <<"InactiveBranchesZero", \A b \in DOMAIN r.branch : c.branch[b][BSTAT] # 0 \/
            \A j \in {PF, QF, PT, QT} : DEq(r.branch[b][j], 0)>>,
      <<"FlowsFollowBranchModel", FlowsOk(c, r, v)>>,
      <<"ReactiveTotal", \A k \in DOMAIN c.bus : UnitsAt(c, k) # <<>> =>
            DNear(DSub(genq(k), c.bus[k][QD]), net(k)[2], DMul(tol, DAdd(1, DMul("1e-3", e.range))))>>,
      <<"ReactiveSharing", \A k \in DOMAIN c.bus : Shared(c, r, k)>>,
      <<"SlackTotal", \A k \in ref : DNear(DSub(genp(k), c.bus[k][PD]), net(k)[1], tol)>>,
      <<"OthersKeepRealOutput", \A j \in DOMAIN c.gen :
            (c.gen[j][GSTAT] > 0 /\ \A k \in ref : j # UnitsAt(c, k)[1]) => DSame(r.gen[j][PG], c.gen[j][PG])>> })

Verdict(e) == CASE e.ev = "update" -> Update(e)
                [] e.ev = "ac" -> Ac(e)
                [] e.ev = "dc" -> Dc(e)
                [] e.ev = "roles" -> Roles(e)
                [] e.ev = "raised" -> {"Raised"}

TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
