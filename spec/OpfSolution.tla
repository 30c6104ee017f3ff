----------------------------- MODULE OpfSolution -----------------------------
(* What it means that the tables a user gets back from an optimal power      *)
(* flow solve the case the user gave: feasibility, the objective, and the    *)
(* first-order optimality conditions in terms of the reported prices and     *)
(* multipliers.  Everything is stated on the case's own tables; internal     *)
(* order (perm: the order of the in-service units) only gives the positions  *)
(* of named records and of user columns.                                     *)
EXTENDS Region

(* the case, its result and user data restricted to equipment in service *)
GenRows(c, perm) == IdxOf(c, perm, "gen")
IntCost(c, perm) == LET ng == Len(c.gen)  g == GenRows(c, perm) IN
    [k \in DOMAIN g |-> c.gencost[g[k]]] \o (IF Len(c.gencost) = 2 * ng THEN [k \in DOMAIN g |-> c.gencost[ng + g[k]]] ELSE <<>>)
Inside(c, perm) == TLCEval([baseMVA |-> c.baseMVA, bus |-> IntBus(c), gen |-> IntGen(c, perm), branch |-> IntBranch(c), gencost |-> IntCost(c, perm)])
ResultInside(c, perm, r) == TLCEval([bus |-> Take(r.bus, OnBus(c)), gen |-> Take(r.gen, GenRows(c, perm)), branch |-> Take(r.branch, OnBranch(c))])

\* user columns: Va Vm Pg Qg (or Va Pg) of the case's own tables, then z
UserKinds(dc) == IF dc THEN <<"bus", "gen">> ELSE <<"bus", "bus", "gen", "gen">>
UserRow(c, perm, dc, row) ==
    LET nb == Len(c.bus)  ng == Len(c.gen) IN
    IF dc /\ Len(row) >= 2 * nb + 2 * ng      \* AC columns given to a DC problem: those of Vm and Qg drop out
    THEN E2I(c, perm, <<"bus", "gen">>, SubSeq(row, 1, nb) \o SubSeq(row, 2 * nb + 1, 2 * nb + ng) \o SubSeq(row, 2 * nb + 2 * ng + 1, Len(row)))
    ELSE E2I(c, perm, UserKinds(dc), row)
UserMat(c, perm, dc, A) == [r \in DOMAIN A |-> UserRow(c, perm, dc, A[r])]
\* missing pieces of a general cost
UserInside(c, perm, dc, u) == IF u.N = <<>> THEN [N |-> <<>>, H |-> <<>>, Cw |-> <<>>, fparm |-> <<>>] ELSE
    LET n == Len(u.N) IN TLCEval([N |-> UserMat(c, perm, dc, u.N), Cw |-> u.Cw,
        H |-> IF u.H = <<>> THEN [i \in 1..n |-> [j \in 1..n |-> 0]] ELSE u.H,
        fparm |-> IF u.fparm = <<>> THEN [i \in 1..n |-> <<1, 0, 0, 1>>] ELSE u.fparm])

-----------------------------------------------------------------------------
(* the point: x = Va Vm Pg Qg y z (AC) or Va Pg y z (DC) *)
PointAC(i, ri, y, z) == TLCEval(
    [k \in DOMAIN ri.bus |-> Rad(ri.bus[k][VA])] \o [k \in DOMAIN ri.bus |-> ri.bus[k][VM]]
    \o Per(i, ri.gen, PG) \o Per(i, ri.gen, QG) \o y \o z)
PointDC(i, ri, y, z) == TLCEval([k \in DOMAIN ri.bus |-> Rad(ri.bus[k][VA])] \o Per(i, ri.gen, PG) \o y \o z)

PCost(i) == SubSeq(i.gencost, 1, NG(i))
DcCase(i) == [i EXCEPT !.gencost = PCost(i)]
DcObjective(i, u, x) == LET nb == NB(i)  ng == NG(i)  ny == Len(Curves(PCost(i)))
                            w == SubSeq(x, 1, nb + ng) \o SubSeq(x, nb + ng + ny + 1, Len(x)) IN
    DSum(<<DSum([k \in 1..ng |-> IF Curved(i.gencost[k]) THEN 0 ELSE CostAt(i.gencost[k], DMul(i.baseMVA, x[nb + k]))]),
           DSum([k \in 1..ny |-> x[nb + ng + k]]), UserCostAt(u, w)>>)
\* what generation costs at the reported dispatch
DispatchCost(g, base, out) == DSum([k \in DOMAIN g |-> CostAt(g[k], DMul(base, out[k]))])

(* the linear rows of the model: named, in order, as records [n, row, lo, up] over x *)
Zeros(n) == [k \in 1..n |-> 0]
Angle(i, x) == SubSeq(x, 1, NB(i))
At(n, f) == TLCEval([k \in 1..n |-> IF k \in DOMAIN f THEN f[k] ELSE 0])

(* linear part of the gradient of the Lagrangian, at position k, from the    *)
(* reported multipliers; s names the starting positions of Va Pg Qg y z      *)
TwoPi180 == DDiv(180, PI)
AngTerm(ri, i, k) == DSum([b \in DOMAIN ri.branch |->
    LET m == DMul(TwoPi180, DSub(ri.branch[b][MUANGMAX], ri.branch[b][MUANGMIN])) IN
    IF i.branch[b][FBUS] + 1 = k THEN m ELSE IF i.branch[b][TBUS] + 1 = k THEN DNeg(m) ELSE 0])
\* power factor rows: (Qf, -Pmin) / norm of loads with both limits in MW, multiplier m
VlTerm(i, m, g, isP) == LET v == VarLoads(i) IN DSum([j \in DOMAIN v |-> IF v[j] # g THEN 0 ELSE
    LET r == i.gen[g]  h == CAbs(<<r[PMIN], QatFull(r)>>) IN DMul(m[j], DDiv(IF isP THEN QatFull(r) ELSE DNeg(r[PMIN]), h))])
\* rows of curve j are consecutive: the first follows those of the curves before
RECURSIVE Before(_, _, _)
Before(g, w, j) == IF j = 1 THEN 0 ELSE Before(g, w, j - 1) + NC(g[w[j - 1]]) - 1
CurveTerm(base, g, w, m, j) == LET r == g[w[j]]  b == Before(g, w, j) IN
    DSum([s \in 1..(NC(r) - 1) |-> DMul(m[b + s], DMul(base, Slope(r, s)))])
CurveSum(g, w, m, j) == LET b == Before(g, w, j) IN DSum([s \in 1..(NC(g[w[j]]) - 1) |-> m[b + s]])
RowsOfCurves(g, w) == DInt(DSum([j \in DOMAIN w |-> NC(g[w[j]]) - 1]))
UsrTerm(A, m, k) == DSum([r \in DOMAIN A |-> DMul(m[r], A[r][k])])
Net(u, lo) == TLCEval([k \in DOMAIN u |-> DSub(u[k], lo[k])])

(* multipliers and slacks: a pair never multiplies to more than tol *)
Pair(mu, slack, tol) == DLe(DMul(mu, DAbs(slack)), tol)
Nonneg(s) == \A k \in DOMAIN s : DLe(0, s[k])
Col(t, j) == [k \in DOMAIN t |-> t[k][j]]
=============================================================================
