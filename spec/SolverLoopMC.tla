---------------------------- MODULE SolverLoopMC ----------------------------
(* The loop itself, explored: any sequence of points, any limit.             *)
EXTENDS SolverLoop, TLC
CONSTANT Max
VARIABLES limit, it, mis, ms, stopped
vars == <<limit, it, mis, ms, stopped>>
Below(m) == m = 0
Init == limit \in 0..Max /\ it = 0 /\ mis \in 0..2 /\ ms = <<mis>> /\ stopped = FALSE
Iterate == ~stopped /\ ~Below(mis) /\ it < limit /\ it' = it + 1 /\ mis' \in 0..2 /\ ms' = Append(ms, mis') /\ UNCHANGED <<limit, stopped>>
Stop == ~stopped /\ (Below(mis) \/ it = limit) /\ stopped' = TRUE /\ UNCHANGED <<limit, it, mis, ms>>
Next == Iterate \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Honest == stopped => [conv |-> Below(mis), it |-> it] = Outcome(ms, limit, Below)
WithinLimit == it <= limit
AtOnce == (stopped /\ Below(ms[1])) => it = 0
\* outcomes for growing limits along one sequence of points are consistent
Prefix == stopped => Consistent([k \in 1..(it + 1) |-> Outcome(ms, k - 1, Below)])
Terminates == <>stopped
=============================================================================
