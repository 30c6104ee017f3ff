------------------------------ MODULE Matrices ------------------------------
(* Network matrices, entry by entry, from the branch and bus model.  Cases   *)
(* are in internal form: bus k (from 1) is numbered k - 1.  Branches with    *)
(* status 0 contribute nothing.                                              *)
EXTENDS Network, TLC

Zero == <<0, 0>>
Live(c) == Indices(Len(c.branch), LAMBDA k : c.branch[k][BSTAT] # 0)
F(c, b) == c.branch[b][FBUS] + 1
T(c, b) == c.branch[b][TBUS] + 1

\* contribution of branch row br, from bus f to bus t, to entry (i, j)
Stamp(br, f, t, i, j) ==
    CSum(<<IF i = f /\ j = f THEN Yff(br) ELSE Zero, IF i = f /\ j = t THEN Yft(br) ELSE Zero,
           IF i = t /\ j = f THEN Ytf(br) ELSE Zero, IF i = t /\ j = t THEN Ytt(br) ELSE Zero>>)
Shunt(c, k) == CScale(DDiv(1, c.baseMVA), <<c.bus[k][GS], c.bus[k][BS]>>)
\* entry (i, j) of the admittance matrix of a network whose branch rows are mapped by br(_)
Entry(c, i, j, br(_), sh(_)) ==
    LET on == Live(c)
        at == Indices(Len(on), LAMBDA q : {F(c, on[q]), T(c, on[q])} = {i, j} \/ (i = j /\ i \in {F(c, on[q]), T(c, on[q])}))
    IN CAdd(IF i = j THEN sh(i) ELSE Zero,
            CSum([q \in DOMAIN at |-> LET b == on[at[q]] IN Stamp(br(b), F(c, b), T(c, b), i, j)]))
Matrix(c, br(_), sh(_)) == TLCEval([i \in DOMAIN c.bus |-> TLCEval([j \in DOMAIN c.bus |-> Entry(c, i, j, br, sh)])])
YbusOf(c) == Matrix(c, LAMBDA b : c.branch[b], LAMBDA k : Shunt(c, k))
RowF(c, b) == [j \in DOMAIN c.bus |-> IF c.branch[b][BSTAT] = 0 THEN Zero
                ELSE CAdd(IF j = F(c, b) THEN Yff(c.branch[b]) ELSE Zero, IF j = T(c, b) THEN Yft(c.branch[b]) ELSE Zero)]
RowT(c, b) == [j \in DOMAIN c.bus |-> IF c.branch[b][BSTAT] = 0 THEN Zero
                ELSE CAdd(IF j = F(c, b) THEN Ytf(c.branch[b]) ELSE Zero, IF j = T(c, b) THEN Ytt(c.branch[b]) ELSE Zero)]
YfOf(c) == [b \in DOMAIN c.branch |-> RowF(c, b)]
YtOf(c) == [b \in DOMAIN c.branch |-> RowT(c, b)]
SbusOf(c) == [k \in DOMAIN c.bus |-> CScale(DDiv(1, c.baseMVA), Scheduled(c, k))]

(* decoupled power flow: B' ignores shunts, charging and taps (phase shift   *)
(* kept); B'' ignores phase shift; the XB variant drops resistance from B',  *)
(* the BX variant from B''                                                   *)
BpBranch(c, b, alg) == LET r == c.branch[b] IN [r EXCEPT ![BRB] = 0, ![TAP] = 1, ![BRR] = IF alg = 2 THEN 0 ELSE @]
BppBranch(c, b, alg) == LET r == c.branch[b] IN [r EXCEPT ![SHIFT] = 0, ![BRR] = IF alg = 3 THEN 0 ELSE @]
MinusIm(m) == [i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> DNeg(m[i][j][2])]]
BpOf(c, alg) == MinusIm(Matrix(c, LAMBDA b : BpBranch(c, b, alg),
                               LAMBDA k : CScale(DDiv(1, c.baseMVA), <<c.bus[k][GS], 0>>)))
BppOf(c, alg) == MinusIm(Matrix(c, LAMBDA b : BppBranch(c, b, alg), LAMBDA k : Shunt(c, k)))

(* DC model: Pf = Bf * angle + Pfinj, Pbus = Bbus * angle + Pbusinj (rad, p.u.) *)
SusOf(c, b) == IF c.branch[b][BSTAT] = 0 THEN 0 ELSE SusDC(c.branch[b])
BfOf(c) == [b \in DOMAIN c.branch |-> [j \in DOMAIN c.bus |->
               DSub(IF j = F(c, b) THEN SusOf(c, b) ELSE 0, IF j = T(c, b) THEN SusOf(c, b) ELSE 0)]]
PfinjOf(c) == [b \in DOMAIN c.branch |-> DMul(SusOf(c, b), DNeg(Rad(c.branch[b][SHIFT])))]
Incidence(c, b, k) == (IF k = F(c, b) THEN 1 ELSE 0) - (IF k = T(c, b) THEN 1 ELSE 0)
BbusOf(c) == LET bf == BfOf(c) IN [i \in DOMAIN c.bus |-> [j \in DOMAIN c.bus |->
               DSum([b \in DOMAIN c.branch |-> DMul(Incidence(c, b, i), bf[b][j])])]]
PbusinjOf(c) == LET p == PfinjOf(c) IN
    [i \in DOMAIN c.bus |-> DSum([b \in DOMAIN c.branch |-> DMul(Incidence(c, b, i), p[b])])]

SeqClose(s, t, tol) == Len(s) = Len(t) /\ \A k \in DOMAIN s : DClose(s[k], t[k], tol)
MatClose(s, t, tol) == Len(s) = Len(t) /\ \A k \in DOMAIN s : SeqClose(s[k], t[k], tol)
CSeqClose(s, t, tol) == Len(s) = Len(t) /\ \A k \in DOMAIN s : CClose(s[k], t[k], tol)
CMatClose(s, t, tol) == Len(s) = Len(t) /\ \A k \in DOMAIN s : CSeqClose(s[k], t[k], tol)
=============================================================================
