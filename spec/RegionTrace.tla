----------------------------- MODULE RegionTrace -----------------------------
(* Conformance of makeAy, makeAvl, makeApq, makeAang, hasPQcap, isload and   *)
(* the linear part of the model built by opf_setup with Region.              *)
EXTENDS TraceRun, Region
Block(A, lo, up, n) == Len(lo) = Len(A) /\ Len(up) = Len(A) /\ \A r \in DOMAIN A : Len(A[r]) = n
PQOf(c, x) == SubSeq(x, 2 * NB(c) + 1, 2 * NB(c) + 2 * NG(c))
Ay(e) == LET w == Pwls(e.c.gencost)  n == DInt(DSum([j \in DOMAIN w |-> NC(e.c.gencost[w[j]]) - 1]))  lo == [r \in DOMAIN e.A |-> "-inf"] IN Failing(
    {<<"RowPerSegment", Len(e.A) = n /\ Block(e.A, lo, e.b, e.cols)>>,
     <<"AdmitsEpigraph", \A k \in DOMAIN e.xs : LET x == e.xs[k] IN Admits(e.A, lo, e.b, x.x, OverCurves(e.c, w, x.out, x.y))>>})
Avl(e) == LET v == VarLoads(e.c)  n == 2 * NG(e.c) IN Failing(
    {<<"LoadsIdentified", e.at = [k \in DOMAIN v |-> v[k] - 1] /\ \A k \in DOMAIN e.c.gen : e.isload[k] = IsLoad(e.c.gen[k])>>,
     <<"RowPerLoad", Len(e.A) = Len(v) /\ Block(e.A, e.l, e.u, n) /\ UnitRows(e.A)>>,
     <<"AdmitsPowerFactor", \A k \in DOMAIN e.xs : Admits(e.A, e.l, e.u, e.xs[k], OnLines(e.c, e.xs[k]))>>})
Apq(e) == LET n == 2 * NG(e.c)  h == UpperGens(e.c)  w == LowerGens(e.c)  inf(A) == [r \in DOMAIN A |-> "-inf"] IN Failing(
    {<<"CurvesIdentified", e.ath = [k \in DOMAIN h |-> h[k] - 1] /\ e.atl = [k \in DOMAIN w |-> w[k] - 1]
          /\ \A k \in DOMAIN e.c.gen : e.hasU[k] = CapU(e.c.gen[k]) /\ e.hasL[k] = CapL(e.c.gen[k]) /\ e.hasB[k] = (e.hasU[k] \/ e.hasL[k])>>,
     <<"RowPerCurve", Len(e.Ah) = Len(h) /\ Len(e.Al) = Len(w) /\ Block(e.Ah, inf(e.Ah), e.bh, n) /\ Block(e.Al, inf(e.Al), e.bl, n) /\ UnitRows(e.Ah) /\ UnitRows(e.Al)>>,
     <<"AdmitsUpper", \A k \in DOMAIN e.xs : Admits(e.Ah, inf(e.Ah), e.bh, e.xs[k], UnderCap(e.c, e.xs[k]))>>,
     <<"AdmitsLower", \A k \in DOMAIN e.xs : Admits(e.Al, inf(e.Al), e.bl, e.xs[k], AboveCap(e.c, e.xs[k]))>>})
Aang(e) == LET w == IF e.ignore THEN <<>> ELSE AngBranches(e.c) IN Failing(
    {<<"BranchesIdentified", e.at = [k \in DOMAIN w |-> w[k] - 1]>>,
     <<"RowPerBranch", Len(e.A) = Len(w) /\ Block(e.A, e.l, e.u, NB(e.c))>>,
     <<"AdmitsAngles", \A k \in DOMAIN e.xs : Admits(e.A, e.l, e.u, e.xs[k], IF e.ignore THEN "inf" ELSE InAngles(e.c, e.xs[k]))>>})

(* the assembled model: variables, then rows by name *)
Eq(a, b) == DEq(a, b) \/ DClose(a, b, "1e-12")
Seqs(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Eq(s[k], t[k])

Const(v, n) == [k \in 1..n |-> v]
RefBound(c, other) == [k \in DOMAIN c.bus |-> IF k \in Refs(c) THEN Rad(c.bus[k][VA]) ELSE other]
Curves2(c, dc) == IF dc THEN Curves(SubSeq(c.gencost, 1, NG(c))) ELSE Curves(c.gencost)
LoBound(c, dc) == LET y == Const("-inf", Len(Curves2(c, dc))) IN IF dc THEN RefBound(c, "-inf") \o Per(c, c.gen, PMIN) \o y
    ELSE RefBound(c, "-inf") \o [k \in DOMAIN c.bus |-> c.bus[k][VMIN]] \o Per(c, c.gen, PMIN) \o Per(c, c.gen, QMN) \o y
UpBound(c, dc) == LET y == Const("inf", Len(Curves2(c, dc))) IN IF dc THEN RefBound(c, "inf") \o Per(c, c.gen, PMAX) \o y
    ELSE RefBound(c, "inf") \o [k \in DOMAIN c.bus |-> c.bus[k][VMAX]] \o Per(c, c.gen, PMAX) \o Per(c, c.gen, QMX) \o y
\* the named block admits the region with margin m(x)
Rows(e, name, x, m) == IF ~Has(e.blocks, name) THEN DLe("-1e-5", m) ELSE LET b == e.blocks[name] IN Admits(b.A, b.l, b.u, x, m)
Model(e) ==
    LET c == e.c  nb == NB(c)  ng == NG(c)  dc == e.dc
        w == Curves2(c, dc)
        va(x) == SubSeq(x, 1, nb)
        pg(x) == IF dc THEN SubSeq(x, nb + 1, nb + ng) ELSE SubSeq(x, 2 * nb + 1, 2 * nb + ng)
        out(x) == IF dc THEN pg(x) ELSE PQOf(c, x)
        ys(x) == LET n == Len(x) IN SubSeq(x, n - Len(w) + 1, n)
        lo == LoBound(c, dc)  up == UpBound(c, dc)
    IN Failing(
    {<<"VariableBounds", Seqs(e.lo, lo) /\ Seqs(e.up, up)>>,
     <<"RowCounts", IF dc THEN e.counts.Pmis = nb /\ e.counts.Pf = Len(Limited(c)) /\ e.counts.Pt = Len(Limited(c)) /\ e.counts.ang = Len(AngBranches(c))
                    ELSE e.counts.PQh = Len(UpperGens(c)) /\ e.counts.PQl = Len(LowerGens(c)) /\ e.counts.vl = Len(VarLoads(c)) /\ e.counts.ang = Len(AngBranches(c))>>,
     <<"CostRows", \A k \in DOMAIN e.xs : Rows(e, "ycon", e.xs[k], OverCurves(c, w, out(e.xs[k]), ys(e.xs[k])))>>,
     <<"AngleRows", \A k \in DOMAIN e.xs : Rows(e, "ang", e.xs[k], InAngles(c, va(e.xs[k])))>>}
    \cup (IF dc THEN
    {<<"FlowRows", \A k \in DOMAIN e.xs : Rows(e, "Pf", e.xs[k], InFlows(c, va(e.xs[k]), 1)) /\ Rows(e, "Pt", e.xs[k], InFlows(c, va(e.xs[k]), -1))>>,
     <<"BalanceRows", LET b == e.blocks.Pmis IN Len(b.A) = nb /\ \A k \in DOMAIN e.xs : \A r \in 1..nb :
          LET m == DcMismatch(c, r, va(e.xs[k]), pg(e.xs[k])) IN
          DClose(DSub(DDot(b.A[r], e.xs[k]), b.l[r]), m, "1e-8") /\ DEq(b.l[r], b.u[r])>>}
    ELSE
    {<<"CapabilityRows", \A k \in DOMAIN e.xs : Rows(e, "PQh", e.xs[k], UnderCap(c, out(e.xs[k]))) /\ Rows(e, "PQl", e.xs[k], AboveCap(c, out(e.xs[k])))>>,
     <<"PowerFactorRows", \A k \in DOMAIN e.xs : Rows(e, "vl", e.xs[k], OnLines(c, out(e.xs[k])))>>}))
Verdict(e) == CASE e.ev = "ay" -> Ay(e) [] e.ev = "avl" -> Avl(e) [] e.ev = "apq" -> Apq(e) [] e.ev = "aang" -> Aang(e)
               [] e.ev = "model" -> Model(e) [] e.ev = "raised" -> {"Raised"}
TraceNext == l < Len(TraceLog) /\ l' = l + 1 /\ Report(l + 1, Verdict(TraceLog[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
