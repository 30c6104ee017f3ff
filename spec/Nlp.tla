-------------------------------- MODULE Nlp --------------------------------
(* Nonlinear programs   minimize f(x)  s.t.  g(x) = 0, h(x) <= 0,            *)
(* l <= A x <= u,  xmin <= x <= xmax   with the functions                    *)
(*    f(x)   = x'Hx/2 + c'x + sum_i q_i x_i^4                                *)
(*    g_k(x) = x'G_k x/2 + a_k'x + r_k           (h_k alike)                 *)
(* and what it means for a point and its multipliers to be first-order       *)
(* optimal.  A limit of 1e10 or more in size is no limit.  A row (or         *)
(* variable) is one of: free, lower, upper, boxed, fixed.                    *)
EXTENDS Integers, Sequences, FiniteSets, Dec

MulMat(M, x) == [k \in DOMAIN M |-> DDot(M[k], x)]
Quad(q, x) == DSum(<<DDiv(DDot(MulMat(q.G, x), x), 2), DDot(q.a, x), q.r>>)
QuadGrad(q, x) == LET m == MulMat(q.G, x) IN [k \in DOMAIN x |-> DAdd(m[k], q.a[k])]
Cube(v) == DMul(v, DMul(v, v))
FAt(p, x) == DSum(<<DDiv(DDot(MulMat(p.H, x), x), 2), DDot(p.c, x), DSum([k \in DOMAIN x |-> DMul(p.q[k], DMul(x[k], Cube(x[k])))])>>)
FGrad(p, x) == LET m == MulMat(p.H, x) IN [k \in DOMAIN x |-> DSum(<<m[k], p.c[k], DMul(4, DMul(p.q[k], Cube(x[k])))>>)]

HasL(l) == DLt(DNeg("1e10"), l)
HasU(u) == DLt(u, "1e10")
Fixed(l, u) == DFinite(l) /\ DFinite(u) /\ DLe(DAbs(DSub(u, l)), "2.3e-16")
Kind(l, u) == IF Fixed(l, u) THEN "fixed" ELSE IF HasL(l) /\ HasU(u) THEN "box" ELSE IF HasL(l) THEN "lower" ELSE IF HasU(u) THEN "upper" ELSE "free"

DMaxOf(s) == LET RECURSIVE M(_) M(k) == IF k = 0 THEN 0 ELSE LET r == M(k - 1) IN IF DLt(r, s[k]) THEN s[k] ELSE r IN M(Len(s))
Size(s) == DMaxOf([k \in DOMAIN s |-> DAbs(s[k])])
Pos(v) == IF DLt(v, 0) THEN 0 ELSE v

\* all linear rows: the variables, then A
Rows(p, n) == [k \in 1..(n + Len(p.A)) |-> IF k <= n THEN [j \in 1..n |-> IF j = k THEN 1 ELSE 0] ELSE p.A[k - n]]
Lo(p, n) == p.xmin \o p.l
Up(p, n) == p.xmax \o p.u
Violation(v, l, u) == DAdd(IF HasL(l) THEN Pos(DSub(l, v)) ELSE 0, IF HasU(u) THEN Pos(DSub(v, u)) ELSE 0)

(* a candidate: s = [x, lower, upper, mul, muu, lam, mu] (multipliers of the *)
(* variable bounds, of the linear rows, of g and of h)                        *)
ValR(p, s) == LET n == Len(s.x)  r == Rows(p, n) IN [k \in DOMAIN r |-> IF k <= n THEN s.x[k] ELSE DDot(r[k], s.x)]
MuL(s) == s.lower \o s.mul
MuU(s) == s.upper \o s.muu
GradL(p, s) ==      \* gradient of the Lagrangian
    LET n == Len(s.x)  r == Rows(p, n)  ml == MuL(s)  mu == MuU(s)  fg == FGrad(p, s.x)
        gg == [k \in DOMAIN p.g |-> QuadGrad(p.g[k], s.x)]
        hg == [k \in DOMAIN p.h |-> QuadGrad(p.h[k], s.x)]
    IN [j \in 1..n |-> DSum(<<fg[j], DSum([k \in DOMAIN r |-> DMul(DSub(mu[k], ml[k]), r[k][j])]),
          DSum([k \in DOMAIN gg |-> DMul(s.lam[k], gg[k][j])]), DSum([k \in DOMAIN hg |-> DMul(s.mu[k], hg[k][j])])>>)]
ShapeOk(p, s) == /\ Len(s.lower) = Len(s.x) /\ Len(s.upper) = Len(s.x)
                 /\ Len(s.mul) = Len(p.A) /\ Len(s.muu) = Len(p.A) /\ Len(s.lam) = Len(p.g) /\ Len(s.mu) = Len(p.h)
                 /\ LET w == s.x \o s.lower \o s.upper \o s.mul \o s.muu \o s.lam \o s.mu IN \A k \in DOMAIN w : DFinite(w[k])
Feasible(p, s, tol) ==
    LET v == ValR(p, s)  l == Lo(p, Len(s.x))  u == Up(p, Len(s.x)) IN
    /\ \A k \in DOMAIN v : DLe(Violation(v[k], l[k], u[k]), tol)
    /\ \A k \in DOMAIN p.g : DLe(DAbs(Quad(p.g[k], s.x)), tol)
    /\ \A k \in DOMAIN p.h : DLe(Quad(p.h[k], s.x), tol)
Signs(s) == LET w == s.lower \o s.upper \o s.mul \o s.muu \o s.mu IN \A k \in DOMAIN w : DLe(0, w[k])
\* a side that does not exist has no multiplier; of a fixed row only one side has
Placed(p, s) ==
    LET n == Len(s.x)  l == Lo(p, n)  u == Up(p, n)  a == MuL(s)  b == MuU(s) IN
    \A k \in DOMAIN l : LET t == Kind(l[k], u[k]) IN
        CASE t = "free" -> DEq(a[k], 0) /\ DEq(b[k], 0) [] t = "lower" -> DEq(b[k], 0) [] t = "upper" -> DEq(a[k], 0)
          [] t = "fixed" -> DEq(a[k], 0) \/ DEq(b[k], 0) [] t = "box" -> TRUE
\* products of multipliers of inequalities with the slack they belong to
Complementary(p, s, tol) ==
    LET n == Len(s.x)  v == ValR(p, s)  l == Lo(p, n)  u == Up(p, n)  a == MuL(s)  b == MuU(s) IN
    /\ \A k \in DOMAIN l : LET t == Kind(l[k], u[k]) IN
        /\ t \in {"lower", "box"} => DLe(DMul(a[k], DAbs(DSub(v[k], l[k]))), tol)
        /\ t \in {"upper", "box"} => DLe(DMul(b[k], DAbs(DSub(u[k], v[k]))), tol)
    /\ \A k \in DOMAIN p.h : DLe(DMul(s.mu[k], DAbs(Quad(p.h[k], s.x))), tol)
\* largest slack of an inequality
MaxSlack(p, s) ==
    LET n == Len(s.x)  v == ValR(p, s)  l == Lo(p, n)  u == Up(p, n) IN
    DMaxOf([k \in DOMAIN v |-> LET t == Kind(l[k], u[k]) IN
        DMaxOf(<<IF t \in {"lower", "box"} THEN DSub(v[k], l[k]) ELSE 0, IF t \in {"upper", "box"} THEN DSub(u[k], v[k]) ELSE 0>>)]
        \o [k \in DOMAIN p.h |-> DNeg(Quad(p.h[k], s.x))])
MaxMu(s) == DMaxOf(<<Size(s.lower), Size(s.upper), Size(s.mul), Size(s.muu), Size(s.lam), Size(s.mu)>>)
\* multipliers below this (times the cost scale) of slack inequalities may have been reported as zero
Rounded(p, s) == LET n == Len(s.x)  r == Rows(p, n)  l == Lo(p, n)  u == Up(p, n) IN
    [j \in 1..n |-> DSum([k \in DOMAIN r |-> LET t == Kind(l[k], u[k]) IN IF t \in {"free", "fixed"} THEN 0 ELSE DAbs(r[k][j])]
        \o [k \in DOMAIN p.h |-> DAbs(QuadGrad(p.h[k], s.x)[j])])]
Stationary(p, s, tol, cut) == LET g == GradL(p, s)  r == Rounded(p, s) IN
    \A j \in DOMAIN g : DLe(DAbs(g[j]), DAdd(tol, DMul(cut, r[j])))
=============================================================================
