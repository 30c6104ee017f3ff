------------------------------- MODULE QLimits -------------------------------
(* Enforcing generator reactive limits in a power flow, as a state machine.  *)
(* A state st has                                                            *)
(*   on     the units still free to move,                                    *)
(*   fixed  unit -> "max"/"min" for the units fixed at a limit they hit,     *)
(*   type   role of every bus (3 reference, 2 voltage controlled, 1 load).   *)
(* at[u] is the bus of unit u.  A solution of the power flow tells which     *)
(* units violate which limit (over: beyond the upper, under: below the       *)
(* lower) and by how much.                                                   *)
EXTENDS Integers, Sequences, FiniteSets

Ctl(st, at) == {b \in DOMAIN st.type : st.type[b] \in {2, 3} /\ \E u \in st.on : at[u] = b}
Remaining(st, at) == {u \in st.on : st.type[at[u]] \in {2, 3}}

\* the units to fix this round, all of them or one of the worst
Choices(one, viol, worst(_, _)) ==
    IF ~one THEN {viol} ELSE {{u} : u \in {u \in viol : \A w \in viol : worst(u, w)}}
Infeasible(st, at, viol) == Remaining(st, at) \subseteq viol
LeavesNoControl(st, at, F) == {at[u] : u \in Remaining(st, at)} \subseteq {at[u] : u \in F}
\* where several references exist (one to each island) none of them can be given up
LosesOneOfSeveralReferences(st, at, F) ==
    /\ Cardinality({b \in DOMAIN st.type : st.type[b] = 3}) > 1
    /\ \E u \in F : st.type[at[u]] = 3

\* roles once the units F are fixed: their buses become load buses; if the reference
\* is lost the first controlled bus that still has a unit takes over
Demote(st, at, F) == [b \in DOMAIN st.type |-> IF \E u \in F : at[u] = b THEN 1 ELSE st.type[b]]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Promote(type, at, on) ==
    LET has(b) == \E u \in on : at[u] = b
        cand == {b \in DOMAIN type : type[b] = 2 /\ has(b)}
    IN IF (\E b \in DOMAIN type : type[b] = 3 /\ has(b)) \/ cand = {} THEN type ELSE [type EXCEPT ![Min(cand)] = 3]
Fix(st, at, F, side(_)) ==
    [on |-> st.on \ F, fixed |-> [u \in DOMAIN st.fixed \cup F |-> IF u \in F THEN side(u) ELSE st.fixed[u]],
     type |-> Promote(Demote(st, at, F), at, st.on \ F)]
=============================================================================
