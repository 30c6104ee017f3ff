------------------------------- MODULE Region -------------------------------
(* The regions described by the data of an OPF case in internal form, and    *)
(* what it means that a set of linear rows  l <= A x <= u  admits a region.  *)
(* A margin is positive inside and negative outside a region.                *)
EXTENDS OpfModel
QMX == 4   QMN == 5   PC1 == 11   PC2 == 12   QC1MIN == 13   QC1MAX == 14   QC2MIN == 15   QC2MAX == 16
DMinSeq(s) == LET RECURSIVE M(_) M(k) == IF k = 0 THEN "inf" ELSE LET r == M(k - 1) IN IF DLt(s[k], r) THEN s[k] ELSE r IN M(Len(s))
Margins(s) == DMinSeq(s)

\* epigraph of the cost curves: y on or above the line through every segment (p in MW or MVAr)
OverCurve(r, p, y) == LET x == Xs(r)  v == Ys(r) IN
    Margins([k \in 1..(NC(r) - 1) |-> DSub(y, DAdd(v[k], DMul(Slope(r, k), DSub(p, x[k]))))])
Pwls(g) == Indices(Len(g), LAMBDA k : DEq(g[k][MODEL], PWL))
\* rows of gencost: the first ng for P, then ng for Q; out is P then Q of all units (p.u.), y one per curve of `which`
OverCurves(c, which, out, y) == Margins([j \in DOMAIN which |-> OverCurve(c.gencost[which[j]], DMul(c.baseMVA, out[which[j]]), y[j])])

\* dispatchable loads; those with reactive limits keep their power factor
IsLoad(g) == DLt(g[PMIN], 0) /\ DEq(g[PMAX], 0)
VarLoads(c) == Indices(NG(c), LAMBDA k : IsLoad(c.gen[k]) /\ ~(DEq(c.gen[k][QMN], 0) /\ DEq(c.gen[k][QMX], 0)))
QatFull(g) == IF DEq(g[QMN], 0) THEN g[QMX] ELSE g[QMN]
\* signed distance of (P, Q) from the line of constant power factor
OffLine(g, p, q) == DDiv(DSub(DMul(q, g[PMIN]), DMul(p, QatFull(g))), CAbs(<<g[PMIN], QatFull(g)>>))
OnLines(c, out) == LET v == VarLoads(c) IN Margins([j \in DOMAIN v |-> DNeg(DAbs(OffLine(c.gen[v[j]], out[v[j]], out[NG(c) + v[j]])))])

\* capability trapezoid: Q below the line through (PC1, QC1MAX), (PC2, QC2MAX) and above that of the minima
LineAt(g, p, q1, q2) == DAdd(g[q1], DMul(DSub(p, g[PC1]), DDiv(DSub(g[q2], g[q1]), DSub(g[PC2], g[PC1]))))
HasCurve(g) == ~DEq(g[PC1], g[PC2])
\* needed where the line cuts the box of limits
CapU(g) == HasCurve(g) /\ DLt(LineAt(g, g[PMAX], QC1MAX, QC2MAX), g[QMX])
CapL(g) == HasCurve(g) /\ DLt(g[QMN], LineAt(g, g[PMAX], QC1MIN, QC2MIN))
UpperGens(c) == Indices(NG(c), LAMBDA k : CapU(c.gen[k]))
LowerGens(c) == Indices(NG(c), LAMBDA k : CapL(c.gen[k]))
AllCurved(c) == Indices(NG(c), LAMBDA k : HasCurve(c.gen[k]))
UnderCap(c, out) == LET w == AllCurved(c) IN Margins([j \in DOMAIN w |-> LET g == c.gen[w[j]] IN
    DDiv(DSub(LineAt(g, DMul(c.baseMVA, out[w[j]]), QC1MAX, QC2MAX), DMul(c.baseMVA, out[NG(c) + w[j]])), c.baseMVA)])
AboveCap(c, out) == LET w == AllCurved(c) IN Margins([j \in DOMAIN w |-> LET g == c.gen[w[j]] IN
    DDiv(DSub(DMul(c.baseMVA, out[NG(c) + w[j]]), LineAt(g, DMul(c.baseMVA, out[w[j]]), QC1MIN, QC2MIN)), c.baseMVA)])

\* angle difference limits: 0 and beyond a full turn mean none
LoAng(b) == ~DEq(b[ANGMIN], 0) /\ DLt("-360", b[ANGMIN])
HiAng(b) == ~DEq(b[ANGMAX], 0) /\ DLt(b[ANGMAX], 360)
AngBranches(c) == Indices(Len(c.branch), LAMBDA k : LoAng(c.branch[k]) \/ HiAng(c.branch[k]))
DiffOf(b, va) == DSub(va[b[FBUS] + 1], va[b[TBUS] + 1])
InAngles(c, va) == LET w == AngBranches(c) IN Margins([j \in DOMAIN w |-> LET b == c.branch[w[j]] IN
    DMin(IF LoAng(b) THEN DSub(DiffOf(b, va), Rad(b[ANGMIN])) ELSE "inf", IF HiAng(b) THEN DSub(Rad(b[ANGMAX]), DiffOf(b, va)) ELSE "inf")])

\* DC network: flows in p.u. of the branches from their angles in radians; limits 0 or 1e10 and beyond are none
DcFlow(b, va) == DMul(SusDC(b), DSub(DiffOf(b, va), Rad(b[SHIFT])))
Limited(c) == Indices(Len(c.branch), LAMBDA k : ~DEq(c.branch[k][RATEA], 0) /\ DLt(c.branch[k][RATEA], "1e10"))
InFlows(c, va, sign) == LET w == Limited(c) IN Margins([j \in DOMAIN w |-> LET b == c.branch[w[j]] IN
    DSub(DDiv(b[RATEA], c.baseMVA), DMul(sign, DcFlow(b, va)))])
DcMismatch(c, k, va, pg) ==
    DSum(<<DDiv(DAdd(c.bus[k][PD], c.bus[k][GS]), c.baseMVA)>>
      \o [b \in DOMAIN c.branch |-> LET r == c.branch[b] IN IF r[FBUS] + 1 = k THEN DcFlow(r, va) ELSE IF r[TBUS] + 1 = k THEN DNeg(DcFlow(r, va)) ELSE 0]
      \o [g \in DOMAIN c.gen |-> IF c.gen[g][GBUS] + 1 = k THEN DNeg(pg[g]) ELSE 0])

-----------------------------------------------------------------------------
Sat(A, lo, up, x) == \A r \in DOMAIN A : LET v == DDot(A[r], x) IN DLe(DSub(lo[r], "1e-9"), v) /\ DLe(v, DAdd(up[r], "1e-9"))
Admits(A, lo, up, x, m) == /\ DLe("-1e-13", m) => Sat(A, lo, up, x)
                           /\ DLt(m, "-1e-5") => ~Sat(A, lo, up, x)
Per(c, rows, col) == [k \in DOMAIN rows |-> DDiv(rows[k][col], c.baseMVA)]
Refs(c) == {k \in DOMAIN c.bus : c.bus[k][BTYPE] = REFBUS}
UnitRows(A) == \A r \in DOMAIN A : DClose(DDot(A[r], A[r]), 1, "1e-9")
=============================================================================
