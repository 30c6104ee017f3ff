------------------------------ MODULE QLimitsMC ------------------------------
(* The enforcement loop, whatever the power flow answers: any set of the     *)
(* moving units may violate, on either side, in any order of severity.       *)
EXTENDS QLimits, TLC
CONSTANTS NB, NU
VARIABLES st, at, one, phase, round, type0
vars == <<st, at, one, phase, round, type0>>
U == 1..NU
Init ==
    /\ at \in [U -> 1..NB] /\ one \in BOOLEAN /\ phase = "solve" /\ round = 0
    /\ type0 \in {t \in [1..NB -> 1..3] : Cardinality({b \in 1..NB : t[b] = 3}) = 1 /\ \A b \in 1..NB : t[b] = 3 => \E u \in U : at[u] = b}
    /\ st = [on |-> U, fixed |-> <<>>, type |-> type0]
Round ==
    /\ phase = "solve"
    /\ \E viol \in SUBSET st.on, rank \in [U -> 0..1] :
         LET worst(u, w) == rank[u] >= rank[w] IN
         IF viol = {} THEN phase' = "ok" /\ UNCHANGED <<st, round>>
         ELSE IF Infeasible(st, at, viol) THEN phase' = "infeasible" /\ UNCHANGED <<st, round>>
         ELSE \E F \in Choices(one, viol, worst) :
            IF LeavesNoControl(st, at, F) THEN phase' = "infeasible" /\ UNCHANGED <<st, round>>
            ELSE \E s \in [F -> {"max", "min"}] :
                 LET side(u) == s[u] IN st' = Fix(st, at, F, side) /\ round' = round + 1 /\ phase' = "solve"
    /\ UNCHANGED <<at, one, type0>>
Next == Round
Spec == Init /\ [][Next]_vars
Conserved == st.on \cup DOMAIN st.fixed = U /\ st.on \cap DOMAIN st.fixed = {}
\* there is always exactly one reference, it has a moving unit, and some bus is controlled
OneReference == Cardinality({b \in 1..NB : st.type[b] = 3 /\ \E u \in st.on : at[u] = b}) = 1
Progress == /\ round <= NU /\ Cardinality(DOMAIN st.fixed) >= round
            /\ one => Cardinality(DOMAIN st.fixed) = round
FixedBusesAreLoadBuses == \A b \in 1..NB : (\E u \in DOMAIN st.fixed : at[u] = b) => st.type[b] = 1
UntouchedBusesKeepControl == \A b \in 1..NB : (~\E u \in DOMAIN st.fixed : at[u] = b) => (st.type[b] = type0[b] \/ (type0[b] = 2 /\ st.type[b] = 3))
=============================================================================
