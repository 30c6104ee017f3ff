-------------------------- MODULE ContinuationTrace --------------------------
(* Recorded traces of runcpf against Continuation and Network.               *)
(*   b, t     base and target case (external)                                *)
(*   pts      every point the callbacks saw, in order:                       *)
(*            [k, lam, lamp (predicted), v, vp over the in-service buses]    *)
(*   ends     the calls marked final: k, lam                                 *)
(*   r, cpf   the case returned and its record of the trace                  *)
EXTENDS TraceRun, Continuation, Network
P == INSTANCE PowerFlowTrace

On(e) == OnBus(e.b)
\* voltages of a point over all buses of the case
Spread(e, v) == LET on == On(e) IN [k \in DOMAIN e.b.bus |-> IF k \in Rng(on) THEN v[CHOOSE q \in DOMAIN on : on[q] = k] ELSE <<0, 0>>]
Between(x, y, lam) == DAdd(x, DMul(lam, DSub(y, x)))
Shunt(c, k, v) == LET m2 == CAbs2(v[k]) IN <<DMul(m2, c.bus[k][GS]), DNeg(DMul(m2, c.bus[k][BS]))>>
At(e, k, lam) == LET p == Scheduled(e.b, k)
                     q == Scheduled(e.t, k) IN <<Between(p[1], q[1], lam), Between(p[2], q[2], lam)>>
Tol(e) == DMul(e.b.baseMVA, DMul(2, e.tol))
Mismatch(e, k, v, lam) == CSub(At(e, k, lam), CAdd(CScale(e.b.baseMVA, BranchEnds(e.b, k, v)), Shunt(e.b, k, v)))
Solves(e, pt) == LET v == Spread(e, pt.v) IN
    \A k \in Rng(On(e)) \ TheRef(e.b) : LET m == Mismatch(e, k, v, pt.lam) IN
        DNear(m[1], 0, Tol(e)) /\ (k \in ThePQ(e.b) => DNear(m[2], 0, Tol(e)))
Held(e, pt) == LET v == Spread(e, pt.v) IN
    /\ \A k \in TheRef(e.b) \cup ThePV(e.b) : \E j \in Rng(UnitsAt(e.b, k)) : DNear(CAbs(v[k]), e.b.gen[j][VG], "1e-9")
    /\ \A k \in TheRef(e.b) : LET u == Polar(1, e.b.bus[k][VA]) IN DNear(DMul(v[k][1], u[2]), DMul(v[k][2], u[1]), "1e-9") /\ DLt(0, DAdd(DMul(v[k][1], u[1]), DMul(v[k][2], u[2])))

\* distances as the parameterizations measure them: angles of all but the reference, magnitudes at load buses, lam
Coord(e, v, lam, ang) == LET on == On(e) IN
    [q \in DOMAIN on |-> IF on[q] \in TheRef(e.b) THEN 0 ELSE ang[q]] \o
    [q \in DOMAIN on |-> IF on[q] \in ThePQ(e.b) THEN CAbs(v[q]) ELSE 0] \o <<lam>>
X(e, k) == Coord(e, e.pts[k].v, e.pts[k].lam, e.pts[k].a)
Xp(e, k) == Coord(e, e.pts[k].vp, e.pts[k].lamp, e.pts[k].ap)
\* angles are the same a full turn on
Turn(d) == IF DLt(PI, d) THEN DSub(d, DMul(2, PI)) ELSE IF DLt(d, DNeg(PI)) THEN DAdd(d, DMul(2, PI)) ELSE d
Diff(x, y) == [i \in DOMAIN x |-> IF 2 * i < Len(x) THEN Turn(DSub(x[i], y[i])) ELSE DSub(x[i], y[i])]
Dist(d) == DSqrt(DDot(d, d))
Lam(e, k) == e.pts[k].lam
Prev(e, k) == IF k > 1 THEN Lam(e, k - 1) ELSE Lam(e, k)
\* the size of the step to point k, from the prediction
Size(e, k) == Dist(Diff(Xp(e, k), X(e, k - 1)))
\* steps that had to be cut are taken in lam
Natural(e, k, d) == DNear(DAbs(DSub(Lam(e, k), Lam(e, k - 1))), d, DMul(2, e.tol))
Landed(e, k, d) == CASE e.param = 1 -> Natural(e, k, d)
    [] e.param = 2 -> LET x == Diff(X(e, k), X(e, k - 1)) IN DNear(DDot(x, x), DMul(d, d), DMul(2, e.tol))
    [] e.param = 3 -> DNear(DDot(Diff(X(e, k), X(e, k - 1)), Diff(Xp(e, k), X(e, k - 1))), DMul(d, d), DMul(2, e.tol))
WasCut(e, k) == \E j \in 2..k : Cut(e.stop, Lam(e, j - 1), Prev(e, j - 1), DMin(e.min, e.step), e.param = 1).cut
\* through a voltage of zero, where magnitude and angle say nothing about distances
Flips(e, k) == \E q \in DOMAIN On(e) : LET turn(a) == DAbs(Turn(DSub(a, e.pts[k - 1].a[q]))) IN
    DLt("1.5", turn(e.pts[k].a[q])) \/ DLt("1.5", turn(e.pts[k].ap[q]))
\* without step control all steps have the size given, cut where needed
Steps(e) == \A k \in 2..Len(e.pts) :
    LET c == Cut(e.stop, Lam(e, k - 1), Prev(e, k - 1), e.step, e.param = 1)
        was == \E j \in 2..(k - 1) : Cut(e.stop, Lam(e, j - 1), Prev(e, j - 1), e.step, e.param = 1).cut
    IN IF c.cut THEN Natural(e, k, DAbs(c.step))
       ELSE IF was \/ Flips(e, k) THEN TRUE
       ELSE DNear(Size(e, k), e.step, "1e-8") /\ Landed(e, k, e.step)
Sized(e) == \A k \in 2..Len(e.pts) : Flips(e, k) \/ LET d == Size(e, k) IN
    IF k = 2 THEN DLe(d, DAdd(e.step, "1e-8"))
    ELSE DLe(d, DAdd(DMax(e.max, e.step), "1e-8")) /\ ((k < Len(e.pts) /\ ~WasCut(e, k)) => DLe(DMin(e.min, e.step), DAdd(d, "1e-8")))
Eps == "1e-8"
\* exactly at the end
Stopped(e) == LET n == Len(e.pts) IN
    /\ \A k \in 2..(n - 1) : ~Over(e.stop, Lam(e, k), Lam(e, k - 1), Eps)
    /\ e.success => n > 1 /\ Over(e.stop, Lam(e, n), Lam(e, n - 1), Eps)
NeverPast(e) == e.stop.kind = "at" => \A k \in DOMAIN e.pts : DLe(Lam(e, k), DAdd(e.stop.at, Eps))
Alike(e) == \A k \in Rng(On(e)) : LET p == Scheduled(e.b, k)
                                      q == Scheduled(e.t, k) IN DEq(p[1], q[1]) /\ DEq(p[2], q[2])

\* a line feeding one load: the solutions in closed form
Two(e) == LET ref == CHOOSE k \in TheRef(e.b) : TRUE
              load == CHOOSE k \in ThePQ(e.b) : TRUE
              br == e.b.branch[OnBranch(e.b)[1]]
              E2 == LET m == e.b.gen[UnitsAt(e.b, ref)[1]][VG] IN DMul(m, m)
              base == e.b.baseMVA
              s0 == <<DDiv(e.b.bus[load][PD], base), DDiv(e.b.bus[load][QD], base)>>
              s1 == <<DDiv(e.t.bus[load][PD], base), DDiv(e.t.bus[load][QD], base)>>
              \* loads grow in proportion
              unit == s0
              grow == DSub(DDiv(s1[1], s0[1]), 1)
              mu(lam) == DAdd(1, DMul(lam, grow))
              rx == DAdd(DMul(br[BRR], unit[1]), DMul(br[BRX], unit[2]))
              zs == DMul(CAbs(<<br[BRR], br[BRX]>>), CAbs(unit))
              nose == DDiv(E2, DMul(2, DAdd(rx, zs)))
              half(m) == DSub(DDiv(E2, 2), DMul(m, rx))
              u(k) == LET x == CAbs(e.pts[k].v[CHOOSE q \in DOMAIN On(e) : On(e)[q] = load]) IN DMul(x, x)
              \* the two solutions at a loading are half +- something
              lower(k) == DLt(u(k), half(mu(Lam(e, k))))
          IN [nose |-> nose, mu |-> [k \in DOMAIN e.pts |-> mu(Lam(e, k))], lower |-> [k \in DOMAIN e.pts |-> lower(k)],
              goal |-> IF e.stop.kind = "at" THEN mu(e.stop.at) ELSE 0]
ClosedForm(e) == LET w == TLCEval(Two(e))
                     n == Len(e.pts) IN {
    <<"NeverAboveTheNose", \A k \in DOMAIN e.pts : DLe(w.mu[k], DMul(w.nose, "1.000001"))>>,
    <<"NosePassed", (e.success /\ (e.stop.kind = "nose" \/ (e.stop.kind = "at" /\ ~DLt(DAbs(DSub(e.stop.at, Lam(e, n))), Eps)))) => w.lower[n]>>,
    <<"BackAtTheBaseOnTheLowerSide", (e.success /\ e.stop.kind = "full") => w.lower[n] /\ ~w.lower[1]>>,
    <<"NoJumpsBetweenSides", \A k \in 2..n : w.lower[k - 1] => w.lower[k]>>,
    <<"ReachableLoadingReached", (e.stop.kind = "at" /\ DLt(w.goal, DMul(w.nose, "0.9"))) => e.success /\ DNear(Lam(e, n), e.stop.at, Eps)>> }

Returned(e) ==
    LET n == Len(e.pts)
        lam == Lam(e, n)
        r == e.r
        v == Volts(r)
        on == On(e)
    IN {
    <<"PowerBalance", \A k \in Rng(on) : CNear(Residual(r, k, v), <<0, 0>>, Tol(e))>>,
    <<"LastPointReturned", \A q \in DOMAIN on : CNear(v[on[q]], e.pts[n].v[q], "1e-9")>>,
    <<"LoadsOfTheLoading", \A k \in Rng(on) : \A j \in {PD, QD} : DNear(r.bus[k][j], Between(e.b.bus[k][j], e.t.bus[k][j], lam), DMul(e.b.baseMVA, "1e-9"))>>,
    <<"OutputsOfTheLoading", \A j \in Rng(OnGen(e.b)) : j \in P!Slack(e.b) \/
          DNear(r.gen[j][PG], Between(e.b.gen[j][PG], e.t.gen[j][PG], lam), DMul(e.b.baseMVA, "1e-9"))>>,
    <<"FlowsFollowBranchModel", P!FlowsOk(e.t, r, v)>>,
    <<"DataKept", /\ P!SameBut(e.t.bus, r.bus, {VM, VA, PD, QD}) /\ P!SameBut(e.t.gen, r.gen, {PG, QG})
                  /\ P!SameBut(e.t.branch, r.branch, {PF, QF, PT, QT})>>,
    <<"IsolatedBusKept", \A k \in DOMAIN e.t.bus : e.t.bus[k][BTYPE] = ISOLATED => DSameSeq(e.t.bus[k], r.bus[k])>>,
    <<"OutOfServiceZero", /\ \A j \in DOMAIN r.gen : j \in Rng(OnGen(e.b)) \/ (DEq(r.gen[j][PG], 0) /\ DEq(r.gen[j][QG], 0))
                          /\ \A b \in DOMAIN r.branch : b \in Rng(OnBranch(e.b)) \/ \A j \in {PF, QF, PT, QT} : DEq(r.branch[b][j], 0)>>,
    <<"RecordComplete", /\ Len(e.cpf.lamc) = n /\ Len(e.cpf.lamp) = n /\ e.cpf.iterations = n - 1
                        /\ \A k \in 1..n : DSame(e.cpf.lamc[k], Lam(e, k)) /\ DSame(e.cpf.lamp[k], e.pts[k].lamp)>>,
    <<"RecordInTheCasesOrder", Len(e.cpf.vc) = Len(e.b.bus) /\ \A k \in DOMAIN e.b.bus :
          Len(e.cpf.vc[k]) = n /\ Len(e.cpf.vp[k]) = n /\ \A i \in 1..n :
          IF k \in Rng(on) THEN LET q == CHOOSE q \in DOMAIN on : on[q] = k IN DSameSeq(e.cpf.vc[k][i], e.pts[i].v[q]) /\ DSameSeq(e.cpf.vp[k][i], e.pts[i].vp[q])
          ELSE DNan(e.cpf.vc[k][i][1]) /\ DNan(e.cpf.vp[k][i][1])>>,
    <<"LargestLoadingReported", (\E k \in 1..n : DSame(e.cpf.max, Lam(e, k))) /\ \A k \in 1..n : DLe(Lam(e, k), e.cpf.max)>>,
    <<"CallbacksAddToTheRecord", e.cpf.noted = e.calls>>,
    <<"FinalCallOnce", Len(e.ends) = 1 /\ e.ends[1].k = n - 1 /\ DSame(e.ends[1].lam, lam)>> }

Trace(e) == LET n == Len(e.pts) IN Failing({
    <<"InputUntouched", e.untouched>>,
    <<"ArgumentsPassed", e.args>>,
    <<"BaseFirst", n >= 1 /\ DEq(Lam(e, 1), 0)>>,
    <<"StepsInOrder", \A k \in 1..n : e.pts[k].k = k - 1>>,
    <<"PointsSolve", n > 1 \/ e.success => \A k \in 1..n : Solves(e, e.pts[k])>>,
    <<"SetPointsHeld", n > 1 \/ e.success => \A k \in 1..n : Held(e, e.pts[k])>>,
    <<"NothingToTrace", Alike(e) => n = 1>>,
    <<"StoppedAsAsked", Alike(e) \/ Stopped(e)>>,
    <<"NeverPast", NeverPast(e)>>,
    <<"StepsOfTheSizeGiven", IF e.adapt THEN Sized(e) ELSE Steps(e)>> }
    \cup (IF e.success THEN Returned(e) ELSE {<<"NoFinalCall", e.ends = <<>> >>})
    \cup (IF e.two THEN ClosedForm(e) ELSE {}))

Verdict(e) == CASE e.ev = "cpf" -> Trace(e)
                [] e.ev = "rate" -> Failing({<<"Solves", e.solved * 100 >= e.percent * e.tried>>})
                [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
