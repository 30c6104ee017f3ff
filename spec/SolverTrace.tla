---------------------------- MODULE SolverTrace ----------------------------
(* Conformance of newtonpf, fdpf and gausspf with SolverLoop.  One event is   *)
(* one problem solved with every iteration limit 0, 1, ..., K:                *)
(* e.runs[k] = [max, conv, it, V].  The mismatch at a point is computed here, *)
(* from the admittance matrix and injections given.                           *)
EXTENDS TraceRun, Network, SolverLoop

Inj(e, V, k) == CMul(V[k], CConj(CDot(e.Y[k], V)))
\* mismatch entries the method must drive to zero
Mis(e, V) ==
    LET d(k) == CSub(Inj(e, V, k), e.S[k])
        s(k, x) == IF e.method = "fd" THEN DAbs(DDiv(x, CAbs(V[k]))) ELSE DAbs(x)
    IN {s(k + 1, d(k + 1)[1]) : k \in Rng(e.pv) \cup Rng(e.pq)} \cup {s(k + 1, d(k + 1)[2]) : k \in Rng(e.pq)}
AllBelow(M, tol) == \A m \in M : DFinite(m) /\ DLt(m, tol)
Finite(V) == \A k \in DOMAIN V : DFinite(V[k][1]) /\ DFinite(V[k][2])
Solver(e) ==
    LET n == Len(e.runs)
        fin(k) == Finite(e.runs[k].V)
        mis == [k \in DOMAIN e.runs |-> IF fin(k) THEN Mis(e, e.runs[k].V) ELSE {"inf"}]
        m0 == Mis(e, e.V0)
        surely == DMul(e.tol, "1.01")
        hardly == DMul(e.tol, "0.99")
        kept(k) == \A b \in Rng(e.ref) \cup Rng(e.pv) : DClose(CAbs(e.runs[k].V[b + 1]), CAbs(e.V0[b + 1]), "1e-10")
        refkept(k) == \A b \in Rng(e.ref) : CClose(e.runs[k].V[b + 1], e.V0[b + 1], "1e-10")
    IN Failing({
      <<"ConvergedMeansBelowTolerance", \A k \in 1..n : e.runs[k].conv => AllBelow(mis[k], DAdd(surely, "1e-13"))>>,
      <<"FailureMeansAboveTolerance", \A k \in 1..n : ~e.runs[k].conv => ~AllBelow(mis[k], DSub(hardly, "1e-13"))>>,
      <<"WithinIterationLimit", \A k \in 1..n : e.runs[k].it <= e.runs[k].max>>,
      <<"LimitsConsistent", Consistent([k \in 1..n |-> [conv |-> e.runs[k].conv, it |-> e.runs[k].it]])>>,
      <<"AtOnceFromSolution", AllBelow(m0, hardly) => \A k \in 1..n : e.runs[k].conv /\ e.runs[k].it = 0 /\
                                   \A b \in DOMAIN e.V0 : CClose(e.runs[k].V[b], e.V0[b], "1e-12")>>,
      <<"SetPointMagnitudesKept", \A k \in 1..n : fin(k) => kept(k)>>,
      <<"ReferenceKept", \A k \in 1..n : fin(k) => refkept(k)>>,
      <<"SamePointOnceConverged", \A k \in 2..n : e.runs[k - 1].conv =>
            \A b \in DOMAIN e.V0 : CClose(e.runs[k].V[b], e.runs[k - 1].V[b], "1e-12")>>,
      <<"InputsUntouched", e.untouched>> })

\* a whole run, converged or not: complete, and honest about it
Drop(row, cols) == [k \in DOMAIN row |-> IF k \in cols THEN 0 ELSE row[k]]
SameBut(t, u, cols) == Len(t) = Len(u) /\ \A k \in DOMAIN t :
    LET m == Len(t[k]) IN Len(u[k]) >= m /\ DSameSeq(Drop(t[k], cols), Drop(SubSeq(u[k], 1, m), cols))
Run1(e) ==
    LET c == e.c
        r == e.r
        on == OnBus(c)
        v == Volts(r)
        fin == \A k \in Rng(on) : DFinite(r.bus[k][VM]) /\ DFinite(r.bus[k][VA])
        \* what the method was asked to achieve: P at PV and PQ, Q at PQ
        mp == {DAbs(DSub(Scheduled(c, k)[1], Drawn(r, k, v)[1])) : k \in ThePV(c) \cup ThePQ(c)}
        mq == {DAbs(DSub(Scheduled(c, k)[2], Drawn(r, k, v)[2])) : k \in ThePQ(c)}
    IN Failing({
      <<"Complete", /\ SameBut(c.bus, r.bus, {VM, VA}) /\ SameBut(c.gen, r.gen, {PG, QG})
                    /\ SameBut(c.branch, r.branch, {PF, QF, PT, QT})
                    /\ \A k \in DOMAIN r.branch : Len(r.branch[k]) >= QT>>,
      <<"FlagsAgree", e.success = e.rsuccess>>,
      <<"SuccessMeansSolved", e.success => fin /\ AllBelow(mp \cup mq, DMul(c.baseMVA, DMul(e.tol, "1.3")))>>,
      <<"FailureMeansUnsolved", (~e.success /\ fin) => ~AllBelow(mp \cup mq, DMul(c.baseMVA, DMul(e.tol, "0.7")))>>,
      <<"InfeasibleIsReported", e.hopeless => ~e.success>> })

\* the same problem with a generous limit, against the outcomes for small ones
Long(e) ==
    LET r == e.run
        fin == Finite(r.V)
        mis == IF fin THEN Mis(e, r.V) ELSE {"inf"}
        p == e.prefix
    IN Failing({
      <<"ConvergedMeansBelowTolerance", r.conv => AllBelow(mis, DAdd(DMul(e.tol, "1.01"), "1e-13"))>>,
      <<"FailureMeansAboveTolerance", ~r.conv => ~AllBelow(mis, DSub(DMul(e.tol, "0.99"), "1e-13"))>>,
      <<"WithinIterationLimit", r.it <= r.max /\ (~r.conv => r.it = r.max)>>,
      <<"LimitsConsistent", \A k \in DOMAIN p : IF p[k].conv THEN r.conv /\ r.it = p[k].it ELSE r.it > k - 1>>,
      <<"SetPointMagnitudesKept", fin => \A b \in Rng(e.ref) \cup Rng(e.pv) : DClose(CAbs(r.V[b + 1]), CAbs(e.V0[b + 1]), "1e-10")>>,
      <<"ReferenceKept", fin => \A b \in Rng(e.ref) : CClose(r.V[b + 1], e.V0[b + 1], "1e-10")>>,
      <<"SolvableIsSolved", e.easy => r.conv>>,
      <<"InputsUntouched", e.untouched>> })

Verdict(e) == CASE e.ev = "long" -> Long(e) [] e.ev = "solver" -> Solver(e) [] e.ev = "run" -> Run1(e) [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
