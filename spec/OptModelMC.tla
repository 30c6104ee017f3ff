----------------------------- MODULE OptModelMC -----------------------------
(* Every short history of additions, with block sizes 0..MaxN.  Histories    *)
(* are emitted (ops without data) and replayed on the real opf_model.        *)
EXTENDS OptModel, TLC, Json
CONSTANTS Depth, MaxN, Emit
VARIABLES m, h
vars == <<m, h>>
Nm(k) == <<"a", "b", "c", "d", "e", "f", "g">>[k]
Init == m = NoModel /\ h = <<>>
Lists == {<<>>} \cup {<<x>> : x \in Names(m.vars)}
         \cup {s \in Names(m.vars) \X Names(m.vars) : s[1] # s[2]}
Row(vs) == [k \in DOMAIN Cols(m.vars, IF vs = <<>> THEN Order(m.vars) ELSE vs) |-> k]
Do(o) == m' = Apply(m, o) /\ h' = Append(h, [op |-> o.op, n |-> o.b.n, vs |-> IF "vs" \in DOMAIN o.b THEN o.b.vs ELSE <<>>])
Next == Len(h) < Depth /\ LET nm == Nm(Len(h) + 1) IN \E n \in 0..MaxN :
    \/ Do([op |-> "var", b |-> [name |-> nm, n |-> n, v0 |-> <<>>, vl |-> <<>>, vu |-> <<>>]])
    \/ Do([op |-> "nln", b |-> [name |-> nm, n |-> n]])
    \/ m.vars # <<>> /\ \E vs \in Lists : Do([op |-> "lin", b |-> [name |-> nm, n |-> n,
          a |-> [r \in 1..n |-> Row(vs)], l |-> <<>>, u |-> <<>>, vs |-> vs]])
    \/ m.vars # <<>> /\ \E vs \in Lists : Do([op |-> "cost", b |-> [name |-> nm, n |-> n,
          N |-> [r \in 1..n |-> Row(vs)], H |-> <<>>, Cw |-> Const(n, 1), dd |-> <<>>, rh |-> <<>>, kk |-> <<>>, mm |-> <<>>, vs |-> vs]])
Spec == Init /\ [][Next]_vars
Range(s, k) == (Before(s, k))..(Before(s, k) + s[k].n - 1)
Disjoint(s) == /\ \A i, j \in DOMAIN s : i # j => Range(s, i) \cap Range(s, j) = {}
               /\ UNION {Range(s, k) : k \in DOMAIN s} = 0..(Total(s) - 1)
BlocksPartition == Disjoint(m.vars) /\ Disjoint(m.lin) /\ Disjoint(m.nln) /\ Disjoint(m.costs)
Shapes == /\ Len(LinRows(m)) = Total(m.lin) /\ \A r \in DOMAIN LinRows(m) : Len(LinRows(m)[r]) = Total(m.vars)
          /\ Len(LinL(m)) = Total(m.lin)
\* rows of an earlier block keep their coefficients on the variables that existed: additions only add columns and rows
Stable == [][\A r \in DOMAIN LinRows(m) : SubSeq(LinRows(m')[r], 1, Total(m.vars)) = LinRows(m)[r]]_vars
Emits == (Emit /\ Len(h) = Depth) => PrintT(<<"EMIT", ToJson(h)>>)
=============================================================================
