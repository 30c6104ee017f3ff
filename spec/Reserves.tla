------------------------------ MODULE Reserves ------------------------------
(* Fixed zonal reserves, and how data that goes with units travels: given in *)
(* the case's own order - in full, one entry for every unit, or compactly,   *)
(* one for every unit of some zone - it is spread out, put into the internal *)
(* order of the units in service, used, and what comes back is again by the  *)
(* case's own units in the form it was given.                                *)
EXTENDS Integers, Sequences, FiniteSets

InZone(zones, u) == \E z \in DOMAIN zones : zones[z][u] # 0
Eligible(zones, n) == {u \in 1..n : InZone(zones, u)}
Rank(S, u) == Cardinality({v \in S : v <= u})
\* one entry for every unit, whatever the form
Spread(v, zones, n, zero) == IF Len(v) = n THEN v ELSE [u \in 1..n |-> IF InZone(zones, u) THEN v[Rank(Eligible(zones, n), u)] ELSE zero]
\* wellformed data
WellFormed(res, n) ==
    /\ Len(res.zones) >= 1 /\ \A z \in DOMAIN res.zones : Len(res.zones[z]) = n
    /\ Len(res.req) = Len(res.zones)
    /\ Len(res.cost) \in {n, Cardinality(Eligible(res.zones, n))}
    /\ res.qty # <<>> => Len(res.qty) = Len(res.cost)

(* the way of the data: stage, internal order of units in service, tables *)
Given(d) == [stage |-> "given", cost |-> d.cost, qty |-> d.qty, zones |-> d.zones, kept |-> d, R |-> <<>>]
Inward(s, d) == LET n == d.n  c == Spread(s.cost, d.zones, n, "none")  q == Spread(s.qty, d.zones, n, "none") IN
    [s EXCEPT !.stage = "internal", !.cost = [k \in DOMAIN d.perm |-> c[d.perm[k]]],
              !.qty = IF d.qty = <<>> THEN <<>> ELSE [k \in DOMAIN d.perm |-> q[d.perm[k]]],
              !.zones = [z \in DOMAIN d.zones |-> [k \in DOMAIN d.perm |-> d.zones[z][d.perm[k]]]]]
\* the answer for the internal unit k, from what is there about it
Solved(s, d) == [s EXCEPT !.stage = "solved", !.R = [k \in DOMAIN d.perm |->
    IF \E z \in DOMAIN s.zones : s.zones[z][k] # 0 THEN <<"R", s.cost[k], IF s.qty = <<>> THEN "none" ELSE s.qty[k], [z \in DOMAIN s.zones |-> s.zones[z][k]]>> ELSE <<>>]]
Outward(s, d) == [s EXCEPT !.stage = "given", !.cost = s.kept.cost, !.qty = s.kept.qty, !.zones = s.kept.zones,
    !.R = [u \in 1..d.n |-> IF \E k \in DOMAIN d.perm : d.perm[k] = u THEN s.R[CHOOSE k \in DOMAIN d.perm : d.perm[k] = u] ELSE <<>>]]
\* what must come back for unit u
Answer(d, u) == IF u \in {d.perm[k] : k \in DOMAIN d.perm} /\ InZone(d.zones, u)
    THEN <<"R", Spread(d.cost, d.zones, d.n, "none")[u], IF d.qty = <<>> THEN "none" ELSE Spread(d.qty, d.zones, d.n, "none")[u], [z \in DOMAIN d.zones |-> d.zones[z][u]]>>
    ELSE <<>>
=============================================================================
