---------------------------- MODULE InterfacesMC ----------------------------
EXTENDS Interfaces, TLC, Json
CONSTANTS NL, Emit
VARIABLES s, d
vars == <<s, d>>
\* the part of each branch in each of two interfaces
Roles == [1..2 -> [1..NL -> {-1, 0, 1}]]
RECURSIVE RowsOf(_, _)
RowsOf(role, k) == IF k = 0 THEN <<>> ELSE RowsOf(role, k - 1) \o
    LET i == (k - 1) \div NL + 1  b == ((k - 1) - (i - 1) * NL) + 1 IN IF role[i][b] = 0 THEN <<>> ELSE <<[i |-> i, b |-> b, d |-> role[i][b]]>>
RECURSIVE Listed(_, _)
Listed(on, k) == IF k = 0 THEN <<>> ELSE Listed(on, k - 1) \o (IF k \in on THEN <<k>> ELSE <<>>)
Shapes == [role : Roles, on : SUBSET (1..NL), lims : {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>}]
Data(x) == [map |-> RowsOf(x.role, 2 * NL), on |-> Listed(x.on, NL), lims |-> x.lims]
Init == \E x \in Shapes : /\ d = Data(x) /\ s = IfGiven(Data(x))
                          /\ Emit => PrintT(<<"EMIT", ToJson(Data(x))>>)
Next == \/ s.stage = "given" /\ s.P = <<>> /\ s' = IfInward(s, d) /\ UNCHANGED d
        \/ s.stage = "internal" /\ s' = IfSolved(s, d) /\ UNCHANGED d
        \/ s.stage = "solved" /\ s' = IfOutward(s, d) /\ UNCHANGED d
Spec == Init /\ [][Next]_vars
Live == {d.on[k] : k \in DOMAIN d.on}
OnlyLive == s.stage = "internal" => \A k \in DOMAIN s.map : s.map[k].b \in DOMAIN d.on
Back == (s.stage = "given" /\ s.P # <<>>) =>
    /\ s.map = d.map
    /\ \A k \in DOMAIN d.lims : LET p == Parts(d.map, d.lims[k], Live) IN s.P[k] = [j \in DOMAIN p |-> <<p[j].d, p[j].b>>]
=============================================================================
