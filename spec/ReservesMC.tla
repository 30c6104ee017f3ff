----------------------------- MODULE ReservesMC -----------------------------
EXTENDS Reserves, TLC, Json
CONSTANTS N, Emit
VARIABLES s, d
vars == <<s, d>>
\* ways of listing some of the units
Orders == {p \in UNION {[1..k -> 1..N] : k \in 1..N} : \A i, j \in DOMAIN p : p[i] = p[j] => i = j}
ZoneSets == UNION {[1..k -> [1..N -> {0, 1}]] : k \in 1..2}
Vec(f, name, zones) == IF f = "full" THEN [u \in 1..N |-> <<name, u>>]
    ELSE LET E == Eligible(zones, N) IN [k \in 1..Cardinality(E) |-> <<name, CHOOSE u \in E : Rank(E, u) = k>>]
Shapes == [perm : Orders, zones : {z \in ZoneSets : Eligible(z, N) # {}}, form : {"full", "compact"}, qty : BOOLEAN]
Data(x) == [n |-> N, perm |-> x.perm, zones |-> x.zones, cost |-> Vec(x.form, "cost", x.zones),
            qty |-> IF x.qty THEN Vec(x.form, "qty", x.zones) ELSE <<>>]
Init == \E x \in Shapes : /\ d = Data(x) /\ s = Given(Data(x))
                          /\ Emit => PrintT(<<"EMIT", ToJson(x)>>)
Next == \/ s.stage = "given" /\ s.R = <<>> /\ s' = Inward(s, d) /\ UNCHANGED d
        \/ s.stage = "internal" /\ s' = Solved(s, d) /\ UNCHANGED d
        \/ s.stage = "solved" /\ s' = Outward(s, d) /\ UNCHANGED d
Spec == Init /\ [][Next]_vars
Unit(u) == u \in {d.perm[k] : k \in DOMAIN d.perm}
\* inside, row k is about the k-th unit of the internal order
AboutItsUnit == s.stage = "internal" => \A k \in DOMAIN d.perm : (InZone(d.zones, d.perm[k]) => s.cost[k] = <<"cost", d.perm[k]>>)
                    /\ \A z \in DOMAIN d.zones : s.zones[z][k] = d.zones[z][d.perm[k]]
\* what comes back is about the case's own units and the data as they were
Back == (s.stage = "given" /\ s.R # <<>>) => /\ \A u \in 1..N : s.R[u] = Answer(d, u)
                                             /\ \A u \in 1..N : s.R[u] # <<>> <=> (Unit(u) /\ InZone(d.zones, u))
                                             /\ s.cost = d.cost /\ s.qty = d.qty /\ s.zones = d.zones
=============================================================================
