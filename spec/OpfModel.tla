------------------------------ MODULE OpfModel ------------------------------
(* The AC optimal power flow as a mathematical problem, for a case in        *)
(* internal form:                                                            *)
(*    minimize f(x)  subject to  g(x) = 0,  h(x) <= 0,  linear rows, bounds  *)
(* x is Va (rad), Vm, Pg, Qg (p.u.), y (one per cost curve with more than    *)
(* one segment), z (user variables), in this order.                          *)
EXTENDS Derivatives, Cost

NB(c) == Len(c.bus)
NG(c) == Len(c.gen)
\* a cost curve of several segments is represented by a variable y, its cost
Curved(r) == DEq(r[MODEL], PWL) /\ NC(r) > 2
Curves(g) == Indices(Len(g), LAMBDA k : Curved(g[k]))
NY(c) == Len(Curves(c.gencost))
AtVa(c) == 0
AtVm(c) == NB(c)
AtPg(c) == 2 * NB(c)
AtQg(c) == 2 * NB(c) + NG(c)
AtY(c) == 2 * NB(c) + 2 * NG(c)
AtZ(c) == AtY(c) + NY(c)
VoltsOf(c, x) == TLCEval([k \in 1..NB(c) |-> LET m == x[AtVm(c) + k]  a == x[AtVa(c) + k] IN <<DMul(m, DCos(a)), DMul(m, DSin(a))>>])

-----------------------------------------------------------------------------
(* objective: polynomial costs (and single segments) of output in MW, MVAr,  *)
(* the y, and general user costs u (rows of N over Va Vm Pg Qg z)            *)
NoUser == [N |-> <<>>]
Ww(r, dd, kk, mm) ==
    LET rr == IF DLt(r, DNeg(kk)) THEN DAdd(r, kk) ELSE DSub(r, kk)
        dead == ~DLt(r, DNeg(kk)) /\ ~DLt(kk, r)
    IN IF dead THEN 0 ELSE IF DEq(dd, 1) THEN DMul(mm, rr) ELSE DMul(mm, DMul(rr, rr))
\* x without y
NoY(c, x) == SubSeq(x, 1, AtY(c)) \o SubSeq(x, AtZ(c) + 1, Len(x))
UserCostAt(u, x) ==
    IF u.N = <<>> THEN 0
    ELSE LET w == TLCEval([r \in DOMAIN u.N |-> LET p == u.fparm[r] IN Ww(DSub(DDot(u.N[r], x), p[2]), p[1], p[3], p[4])]) IN
         DAdd(DDiv(DSum([r \in DOMAIN w |-> DMul(w[r], DDot(u.H[r], w))]), 2), DDot(u.Cw, w))
GenCostAt(c, x) == DSum([k \in DOMAIN c.gencost |->
        IF Curved(c.gencost[k]) THEN 0 ELSE CostAt(c.gencost[k], DMul(c.baseMVA, x[AtPg(c) + k]))])
Objective(c, u, x) == DSum(<<GenCostAt(c, x), DSum([k \in 1..NY(c) |-> x[AtY(c) + k]]), UserCostAt(u, NoY(c, x))>>)

(* equality constraints: power balance (p.u.), real at every bus, then reactive *)
Balance(c, y, x) ==
    LET v == VoltsOf(c, x)
        s == TLCEval([k \in 1..NB(c) |-> LET at == Indices(NG(c), LAMBDA q : c.gen[q][GBUS] + 1 = k)
                                     b == Inj(c, y, k, v) IN
              <<DSub(DAdd(b[1], DDiv(c.bus[k][PD], c.baseMVA)), DSum([q \in DOMAIN at |-> x[AtPg(c) + at[q]]])),
                DSub(DAdd(b[2], DDiv(c.bus[k][QD], c.baseMVA)), DSum([q \in DOMAIN at |-> x[AtQg(c) + at[q]]]))>>])
    IN TLCEval([k \in 1..(2 * NB(c)) |-> IF k <= NB(c) THEN s[k][1] ELSE s[k - NB(c)][2]])

(* inequality constraints: squared flow less squared limit (p.u.), at the    *)
(* from ends of the limited branches il, then at their to ends               *)
Square(c, b, v, from, kind) ==
    IF kind = 2 THEN CAbs2(BrI(c, b, v, from))
    ELSE LET s == BrS(c, b, v, from) IN IF kind = 1 THEN DMul(s[1], s[1]) ELSE CAbs2(s)
FlowLimits(c, x, il, kind) ==
    LET v == VoltsOf(c, x)  n == Len(il) IN
    TLCEval([k \in 1..(2 * n) |-> LET b == il[IF k <= n THEN k ELSE k - n]  m == DDiv(c.branch[b][RATEA], c.baseMVA) IN
        DSub(Square(c, b, v, k <= n, kind), DMul(m, m))])

(* the Lagrangian, with multipliers lam of g, mu of h and the cost scaled *)
Lagrangian(c, y, u, x, il, kind, lam, mu, mult) ==
    DSum(<<DMul(mult, Objective(c, u, x)), DDot(lam, Balance(c, y, x)), DDot(mu, FlowLimits(c, x, il, kind))>>)

-----------------------------------------------------------------------------
(* derivatives by central differences *)
Push(x, k, h) == TLCEval([x EXCEPT ![k] = DAdd(@, h)])
Half == DDiv(1, DMul(2, Step))
By(f(_), x, k) == DMul(Half, DSub(f(Push(x, k, Step)), f(Push(x, k, DNeg(Step)))))
\* of all components of a vector-valued function
ByVec(f(_), x, k) == LET a == f(Push(x, k, Step))  b == f(Push(x, k, DNeg(Step))) IN TLCEval([i \in DOMAIN a |-> DMul(Half, DSub(a[i], b[i]))])
Along(x, d, h) == TLCEval([k \in DOMAIN x |-> DAdd(x[k], DMul(h, d[k]))])
\* component k of (second derivative matrix of f) * d
HessTimes(f(_), x, d, k) ==
    LET p == Along(x, d, Step)  m == Along(x, d, DNeg(Step)) IN
    DMul(DMul(Half, Half), DSub(DSub(f(Push(p, k, Step)), f(Push(p, k, DNeg(Step)))), DSub(f(Push(m, k, Step)), f(Push(m, k, DNeg(Step))))))
=============================================================================
