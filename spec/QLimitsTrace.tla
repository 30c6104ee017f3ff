---------------------------- MODULE QLimitsTrace ----------------------------
(* Conformance of runpf with ENFORCE_Q_LIMS.  The power flow solutions the    *)
(* machine may need are supplied as a tree: node 1 is the plain solution,     *)
(* node k extends node parent by fixing exactly the units fix.                *)
EXTENDS TraceRun, Network, QLimits

Fails == [res |-> "infeasible"]
Node(e, id, F) == CHOOSE k \in DOMAIN e.nodes : e.nodes[k].parent = id /\ Rng(e.nodes[k].fix) = F
Over(e, q, u) == DLt(DAdd(e.c.gen[u][QMAX], e.viol), q[u])
Under(e, q, u) == DLt(q[u], DSub(e.c.gen[u][QMIN], e.viol))
Amount(e, q, u) == DMax(DSub(q[u], e.c.gen[u][QMAX]), DSub(e.c.gen[u][QMIN], q[u]))

Init0(c) ==
    LET on == Rng(OnGen(c))
        at == [u \in on |-> BusRow(c, c.gen[u][GBUS])]
        live(b) == \E u \in on : at[u] = b
    IN [on |-> on, fixed |-> <<>>, type |-> [b \in Rng(OnBus(c)) |-> IF live(b) THEN c.bus[b][BTYPE] ELSE 1]]

RECURSIVE Walk(_, _, _, _)
Walk(e, at, st, id) ==
    LET q == e.nodes[id].qg
        viol == {u \in st.on : Over(e, q, u) \/ Under(e, q, u)}
        worst(u, w) == DLe(Amount(e, q, w), Amount(e, q, u))
        side(u) == IF Over(e, q, u) THEN "max" ELSE "min"
        F == CHOOSE F \in Choices(e.one, viol, worst) : TRUE
    IN IF ~e.nodes[id].ok THEN [res |-> "unsolved"]
       ELSE IF viol = {} THEN [res |-> "ok", st |-> st, id |-> id]
       ELSE IF ~Infeasible(st, at, viol) /\ LosesOneOfSeveralReferences(st, at, F)
            THEN [res |-> IF LeavesNoControl(st, at, F) THEN "unsolved" ELSE "refused"]
       ELSE IF Infeasible(st, at, viol) \/ LeavesNoControl(st, at, F) THEN [res |-> "infeasible", st |-> st, id |-> id]
       ELSE Walk(e, at, Fix(st, at, F, side), Node(e, id, F))

Drop(row, cols) == [k \in DOMAIN row |-> IF k \in cols THEN 0 ELSE row[k]]
SameBut(t, u, cols) == Len(t) = Len(u) /\ \A k \in DOMAIN t :
    LET m == Len(t[k]) IN Len(u[k]) >= m /\ DSameSeq(Drop(t[k], cols), Drop(SubSeq(u[k], 1, m), cols))
Enforce(e) ==
    LET c == e.c
        r == e.r
        on == Rng(OnGen(c))
        at == [u \in on |-> BusRow(c, c.gen[u][GBUS])]
        busOn == Rng(OnBus(c))
        live(b) == \E u \in on : at[u] = b
        st0 == Init0(c)
        type0 == st0.type
        w == Walk(e, at, st0, 1)
        n == e.nodes[w.id]
        st == w.st
        lim(u) == IF st.fixed[u] = "max" THEN c.gen[u][QMAX] ELSE c.gen[u][QMIN]
        tol == DMul(c.baseMVA, "1e-5")
        ref0 == CHOOSE b \in busOn : type0[b] = 3
        v == Volts(r)
    IN IF w.res = "unsolved" THEN {}
       ELSE IF w.res = "refused" THEN {"RefusesReferencesOfSeveralIslands"}
       ELSE Failing({
         <<"FlagsAgree", e.success = e.rsuccess>>,
         <<"FeasibleIsReported", w.res = "ok" => e.success>>,
         <<"InfeasibleIsReported", w.res = "infeasible" => ~e.success>>,
         <<"LoadsRestored", Len(c.bus) = Len(r.bus) /\ \A k \in DOMAIN c.bus : \A j \in {1, 5, 6, 7, 10, 11, 12, 13} : DSame(c.bus[k][j], r.bus[k][j])>>,
         <<"LoadsRestored", \A k \in DOMAIN c.bus : \A j \in {PD, QD} : DClose(c.bus[k][j], r.bus[k][j], "1e-11")>>,
         <<"StatusesRestored", SameBut(c.gen, r.gen, {PG, QG})>>,
         <<"BranchDataKept", SameBut(c.branch, r.branch, {PF, QF, PT, QT})>>,
         <<"LimitsHeld", e.success => \A u \in on : ~Over(e, [k \in DOMAIN r.gen |-> r.gen[k][QG]], u)
                                              /\ ~Under(e, [k \in DOMAIN r.gen |-> r.gen[k][QG]], u)>>,
         <<"FixedAtTheLimitHit", \A u \in DOMAIN st.fixed : DEq(r.gen[u][QG], lim(u))>>,
         <<"ReactiveOutputs", w.res = "ok" => \A u \in st.on : DNear(r.gen[u][QG], n.qg[u], tol)>>,
         <<"RealOutputs", w.res = "ok" => \A u \in on : DNear(r.gen[u][PG], n.pg[u], tol)>>,
         <<"RolesFollow", w.res = "ok" => \A b \in busOn : st.fixed # <<>> =>
                IF live(b) THEN r.bus[b][BTYPE] = st.type[b] ELSE r.bus[b][BTYPE] \in {1, c.bus[b][BTYPE]}>>,
         <<"SetPointsHeld", e.success => \A u \in st.on : st.type[at[u]] \in {2, 3} =>
                \E x \in st.on : at[x] = at[u] /\ DNear(r.bus[at[u]][VM], c.gen[x][VG], "1e-8")>>,
         <<"AnglesKeepOriginalReference", w.res = "ok" => \A b \in busOn : type0[b] = 3 => DNear(r.bus[b][VA], c.bus[b][VA], "1e-6")>>,
         <<"Voltages", w.res = "ok" => \A b \in busOn : /\ DNear(r.bus[b][VM], n.vm[b], "1e-5")
                 /\ DNear(DSub(r.bus[b][VA], r.bus[ref0][VA]), DSub(n.va[b], n.va[ref0]), "1e-3")>>,
         <<"PowerBalance", e.success => \A k \in busOn : CNear(Residual(r, k, v), <<0, 0>>, DMul(c.baseMVA, "1e-7"))>> })

\* with several references the documented answer is an error
Refused(e) ==
    LET c == e.c
        st0 == Init0(c)
        at == [u \in st0.on |-> BusRow(c, c.gen[u][GBUS])]
    IN Failing({<<"Raised", e.slack /\ Walk(e, at, st0, 1).res \in {"refused", "unsolved"}>>})

Verdict(e) == CASE e.ev = "qlim" -> Enforce(e) [] e.ev = "raised" -> Refused(e)
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
