------------------------------ MODULE RolesMC ------------------------------
(* Bus roles over the life of a system in which units trip and return.       *)
(* Exhaustive over every assignment of types to buses and of units to buses. *)
EXTENDS Network, TLC, Json
CONSTANTS NB, NG, Emitting
VARIABLES case, ref, pv, pq
vars == <<case, ref, pv, pq>>
BusNo(k) == <<8, 3, 10, 5>>[k]
MkBus(t) == [k \in 1..NB |-> <<BusNo(k), t[k]>>]
MkGen(g) == [k \in 1..NG |-> <<BusNo(g[k][1]), 0, 0, 0, 0, 1, 0, g[k][2]>>]
Assign(c) == IF HasReference(c) THEN <<TheRef(c), ThePV(c), ThePQ(c)>> ELSE <<{}, {}, {}>>
Init == /\ \E t \in [1..NB -> 1..4], g \in [1..NG -> (1..NB) \X {0, 1}] :
             case = [bus |-> MkBus(t), gen |-> MkGen(g), branch |-> <<>>]
        /\ ref = Assign(case)[1] /\ pv = Assign(case)[2] /\ pq = Assign(case)[3]
        /\ Emitting => PrintT(<<"EMIT", ToJson([t |-> [k \in 1..NB |-> case.bus[k][2]],
                                                g |-> [k \in 1..NG |-> <<case.gen[k][1], case.gen[k][8]>>]])>>)
Switch(j) == /\ case' = [case EXCEPT !.gen[j][8] = 1 - @]
             /\ ref' = Assign(case')[1] /\ pv' = Assign(case')[2] /\ pq' = Assign(case')[3]
Next == \E j \in 1..NG : Switch(j)
Spec == Init /\ [][Next]_vars
\* the documented assignment is an acceptable one
Acceptable == HasReference(case) => RolesOk(case, ref, pv, pq)
\* a controlled bus always has somebody to control it
Controllable == \A k \in ref \cup pv : Alive(case, k)
\* a unit that trips never gives a role to a bus that was a load bus
NoPromotion == [][\A j \in 1..NG : (case'.gen[j][8] = 0 /\ case.gen[j][8] = 1 /\ HasReference(case) /\ HasReference(case'))
                  => pq \subseteq pq' /\ (ref' \subseteq ref \cup pv)]_vars
=============================================================================
