------------------------------ MODULE OptModel ------------------------------
(* The optimization model built from named blocks.  A model is a record of   *)
(* four sequences of blocks, in the order they were added:                   *)
(*   vars  [name, n, v0, vl, vu]        variables                            *)
(*   lin   [name, n, a, l, u, vs]       linear constraints l <= a x_vs <= u  *)
(*   nln   [name, n]                    nonlinear constraints                *)
(*   costs [name, n, N, H, Cw, dd, rh, kk, mm, vs]   general user costs      *)
(* vs is the sequence of names of the variable blocks a block refers to, in  *)
(* its own order; it is fixed when the block is added.                       *)
EXTENDS Integers, Sequences, FiniteSets, Dec

NoModel == [vars |-> <<>>, lin |-> <<>>, nln |-> <<>>, costs |-> <<>>]
Names(s) == {s[k].name : k \in DOMAIN s}
Block(s, name) == s[CHOOSE k \in DOMAIN s : s[k].name = name]
RECURSIVE Before(_, _)
Before(s, k) == IF k = 1 THEN 0 ELSE Before(s, k - 1) + s[k - 1].n      \* first index (from 0) of block k
Total(s) == IF s = <<>> THEN 0 ELSE Before(s, Len(s)) + s[Len(s)].n
First(s, name) == Before(s, CHOOSE k \in DOMAIN s : s[k].name = name)

\* positions (from 1) in x of the columns of a block that refers to vs
RECURSIVE Cols(_, _)
Cols(vars, vs) == IF vs = <<>> THEN <<>>
    ELSE [k \in 1..Block(vars, vs[1]).n |-> First(vars, vs[1]) + k] \o Cols(vars, Tail(vs))
Order(s) == [k \in DOMAIN s |-> s[k].name]
\* row r of a block, spread over all variables (a variable block may be named once only)
Spread(m, vs, row) == LET c == Cols(m.vars, vs) IN
    [j \in 1..Total(m.vars) |-> LET p == {k \in DOMAIN c : c[k] = j} IN
        IF p = {} THEN 0 ELSE row[CHOOSE k \in p : TRUE]]

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Const(n, v) == [k \in 1..n |-> v]
OrElse(s, n, v) == IF s = <<>> THEN Const(n, v) ELSE s
V0(b) == OrElse(b.v0, b.n, 0)
VL(b) == OrElse(b.vl, b.n, "-inf")
VU(b) == OrElse(b.vu, b.n, "inf")
All(s, f(_)) == Cat([k \in DOMAIN s |-> f(s[k])])
LinRows(m) == All(m.lin, LAMBDA b : [r \in 1..b.n |-> Spread(m, b.vs, b.a[r])])
LinL(m) == All(m.lin, LAMBDA b : OrElse(b.l, b.n, "-inf"))
LinU(m) == All(m.lin, LAMBDA b : OrElse(b.u, b.n, "inf"))

(* general costs; absent parameters default to: H 0, dd 1, rh 0, kk 0, mm 1 *)
CN(m, b) == [r \in 1..b.n |-> Spread(m, b.vs, b.N[r])]
DD(b) == OrElse(b.dd, b.n, 1)
RH(b) == OrElse(b.rh, b.n, 0)
KK(b) == OrElse(b.kk, b.n, 0)
MM(b) == OrElse(b.mm, b.n, 1)
HH(b) == IF b.H = <<>> THEN [r \in 1..b.n |-> Const(b.n, 0)] ELSE b.H
\* one general cost variable, for r = N x - rh
W(r, dd, kk, mm) ==
    LET rr == IF DLt(r, DNeg(kk)) THEN DAdd(r, kk) ELSE DSub(r, kk)
        dead == ~DLt(r, DNeg(kk)) /\ ~DLt(kk, r)
    IN IF dead THEN 0 ELSE IF DEq(dd, 1) THEN DMul(mm, rr) ELSE IF DEq(dd, 2) THEN DMul(mm, DMul(rr, rr)) ELSE 0
WOf(m, b, x) == LET n == CN(m, b)  dd == DD(b)  rh == RH(b)  kk == KK(b)  mm == MM(b) IN
    [r \in 1..b.n |-> W(DSub(DDot(n[r], x), rh[r]), dd[r], kk[r], mm[r])]
BlockCost(m, b, x) == LET w == WOf(m, b, x)  h == HH(b) IN
    DAdd(DDiv(DSum([r \in 1..b.n |-> DMul(w[r], DDot(h[r], w))]), 2), IF b.n = 0 THEN 0 ELSE DDot(b.Cw, w))
UserCost(m, x) == DSum([k \in DOMAIN m.costs |-> BlockCost(m, m.costs[k], x)])
\* the smallest distance of a general cost variable from an edge of its dead zone (where w is not smooth)
FullH(m) == LET T == Total(m.costs) IN [i \in 1..T |-> [j \in 1..T |->
    LET k == {q \in DOMAIN m.costs : i > Before(m.costs, q) /\ i <= Before(m.costs, q) + m.costs[q].n} IN
    LET q == CHOOSE q \in k : TRUE  o == Before(m.costs, q) IN
    IF j > o /\ j <= o + m.costs[q].n THEN HH(m.costs[q])[i - o][j - o] ELSE 0]]

-----------------------------------------------------------------------------
(* operations: each adds one block; vs = <<>> means all variables so far *)
VsOf(m, o) == IF o.vs = <<>> THEN Order(m.vars) ELSE o.vs
Apply(m, o) ==
    CASE o.op = "var" -> [m EXCEPT !.vars = Append(@, o.b)]
      [] o.op = "nln" -> [m EXCEPT !.nln = Append(@, o.b)]
      [] o.op = "lin" -> [m EXCEPT !.lin = Append(@, [o.b EXCEPT !.vs = VsOf(m, o.b)])]
      [] o.op = "cost" -> [m EXCEPT !.costs = Append(@, [o.b EXCEPT !.vs = VsOf(m, o.b)])]
      [] o.op = "ask" -> m
=============================================================================
