--------------------------- MODULE OptModelTrace ---------------------------
(* Conformance of opf_model with OptModel.  One event is a history: steps    *)
(* [op, b] and what the model answered after the step.                       *)
EXTENDS TraceRun, OptModel, Functions
RECURSIVE After(_, _)
After(steps, k) == IF k = 0 THEN NoModel ELSE Apply(After(steps, k - 1), steps[k])

Tol == "1e-9"
\* answers about the blocks of one kind
BlocksOk(s, a) == /\ a.total = Total(s) /\ a.sets = Len(s) /\ a.order = Order(s)
                  /\ \A k \in DOMAIN s : /\ a.i1[s[k].name] = Before(s, k) /\ a.iN[s[k].name] = Before(s, k) + s[k].n
                                         /\ a.N[s[k].name] = s[k].n /\ a.n[s[k].name] = s[k].n
                  /\ Cardinality(DOMAIN a.i1) = Len(s) /\ a.unknown = 0
VarsOk(m, a) == /\ DSameSeq(a.v0, All(m.vars, V0)) /\ DSameSeq(a.vl, All(m.vars, VL)) /\ DSameSeq(a.vu, All(m.vars, VU))
                /\ \A k \in DOMAIN m.vars : LET b == m.vars[k]  q == a.named[b.name] IN
                      DSameSeq(q[1], V0(b)) /\ DSameSeq(q[2], VL(b)) /\ DSameSeq(q[3], VU(b))
LinOk(m, a) == DSameMat(a.A, LinRows(m)) /\ DSameSeq(a.l, LinL(m)) /\ DSameSeq(a.u, LinU(m))
ParamsOk(m, s, a, h) ==
    /\ DSameMat(a.N, All(s, LAMBDA b : CN(m, b))) /\ DSameSeq(a.Cw, All(s, LAMBDA b : b.Cw))
    /\ DSameSeq(a.dd, All(s, DD)) /\ DSameSeq(a.rh, All(s, RH)) /\ DSameSeq(a.kk, All(s, KK)) /\ DSameSeq(a.mm, All(s, MM))
    /\ DSameMat(a.H, h)
Asked(m, q) ==
    LET s == IF q.name = "" THEN m.costs ELSE <<Block(m.costs, q.name)>> IN
    CASE q.ask = "params" -> ParamsOk(m, s, q.v, IF q.name = "" THEN FullH(m) ELSE HH(Block(m.costs, q.name)))
      [] q.ask = "cost" -> DClose(q.v, IF q.name = "" THEN UserCost(m, q.x) ELSE BlockCost(m, Block(m.costs, q.name), q.x), Tol)
Step(m, st) ==
    (IF Has(st, "blocks") THEN Failing({
        <<"VariableBlocks", BlocksOk(m.vars, st.blocks.var)>>, <<"LinearBlocks", BlocksOk(m.lin, st.blocks.lin)>>,
        <<"NonlinearBlocks", BlocksOk(m.nln, st.blocks.nln)>>, <<"CostBlocks", BlocksOk(m.costs, st.blocks.cost)>>,
        <<"InitialValuesAndBounds", VarsOk(m, st.vars)>>, <<"LinearConstraints", LinOk(m, st.lin)>> }) ELSE {})
    \cup (IF Has(st, "asked") THEN {IF st.asked[k].ask = "params" THEN "CostParameters" ELSE "UserCost" :
              k \in {k \in DOMAIN st.asked : ~Asked(m, st.asked[k])}} ELSE {})
    \cup (IF Has(st, "raised") THEN {"Raised"} ELSE {})
History(e) == UNION {Step(After(e.steps, k), e.steps[k]) : k \in DOMAIN e.steps}
\* the objective of the optimal power flow with user costs: generation cost (given, see Cost) plus them
Objective(e) == LET m == After(e.steps, Len(e.steps)) IN Failing({
    <<"ObjectiveIncludesUserCost", DClose(e.f, DAdd(e.gencost, UserCost(m, e.x)), Tol)>> })
Verdict(e) == CASE e.ev = "history" -> History(e) [] e.ev = "objective" -> Objective(e) [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
