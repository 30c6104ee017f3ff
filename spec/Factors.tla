------------------------------ MODULE Factors ------------------------------
(* DC distribution factors.  Cases are in internal form (see Matrices).      *)
(* A vector of flows is a DC flow for injections p when there are bus angles *)
(* th (radians, the witness) for which both hold on the linear network.      *)
EXTENDS Matrices

\* flow (p.u.) of branch b without phase shifters, for bus angles th
AngleFlow(c, b, th) == DMul(SusOf(c, b), DSub(th[F(c, b)], th[T(c, b)]))
NetOut(c, fl, k) ==
    LET f == Indices(Len(c.branch), LAMBDA b : F(c, b) = k)
        t == Indices(Len(c.branch), LAMBDA b : T(c, b) = k)
    IN DSub(DSum([q \in DOMAIN f |-> fl[f[q]]]), DSum([q \in DOMAIN t |-> fl[t[q]]]))
IsFlow(c, fl, th, tol) == Len(fl) = Len(c.branch) /\ \A b \in DOMAIN fl : DClose(fl[b], AngleFlow(c, b, th), tol)
Balances(c, fl, p, tol) == \A k \in DOMAIN c.bus : DClose(NetOut(c, fl, k), p[k], tol)
IsDCFlow(c, fl, p, th, tol) == IsFlow(c, fl, th, tol) /\ Balances(c, fl, p, tol)

(* the injection pattern whose flows are column i of the transfer factors:   *)
(* 1 at bus i, taken out by the slack - a bus, weights, or (matrix) a column *)
Col(h, i) == [b \in DOMAIN h |-> h[b][i]]
Weights(w) == LET s == DSum(w) IN [k \in DOMAIN w |-> DDiv(w[k], s)]
Pattern(c, kind, slack, i) ==
    [k \in DOMAIN c.bus |->
        CASE kind = "bus" -> (IF k = i THEN 1 ELSE 0) - (IF k = slack + 1 THEN 1 ELSE 0)
          [] kind = "weights" -> DSub(IF k = i THEN 1 ELSE 0, Weights(slack)[k])
          [] kind = "matrix" -> slack[k][i]]

Apply(h, p) == [b \in DOMAIN h |-> DDot(h[b], p)]

(* outages *)
Without(c, k) == [c EXCEPT !.branch[k][BSTAT] = 0]
Survives(c, k) == c.branch[k][BSTAT] # 0 /\ Connected(Without(c, k))
Predicted(fl, lodf, k) == [b \in DOMAIN fl |-> DAdd(fl[b], DMul(lodf[b][k], fl[k]))]
=============================================================================
