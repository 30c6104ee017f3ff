------------------------------ MODULE Decommit ------------------------------
(* Unit decommitment.  A set S of units is switched off; an oracle o tells   *)
(* what an optimal power flow makes of that:                                 *)
(*   o[S] = [ok |-> it could be solved, f |-> its cost,                      *)
(*           may |-> units held up by their minimum output,                  *)
(*           sure |-> those held up beyond doubt]     (equal when exact)     *)
(* First units are shed while the minimum outputs exceed what can be         *)
(* consumed, the dearest per MW first; then, stage by stage, the unit whose  *)
(* shutdown saves most, as long as one saves anything.                       *)
EXTENDS Integers, Sequences, FiniteSets, Dec
-----------------------------------------------------------------------------
(* shedding: low[u] the minimum output, dear[u] cost per MW there, cap what  *)
(* can be consumed; T the units running                                      *)
RECURSIVE Total(_, _)
Total(low, T) == IF T = {} THEN 0 ELSE LET u == CHOOSE u \in T : TRUE IN DAdd(low[u], Total(low, T \ {u}))
Heavy(low, T) == {u \in T : DLt(0, low[u])}
MustShed(low, cap, T) == DLt(cap, Total(low, T)) /\ Heavy(low, T) # {}
Dearest(low, dear, T) == {u \in Heavy(low, T) : \A w \in Heavy(low, T) : DLe(dear[w], dear[u])}
RECURSIVE ShedTo(_, _, _, _)
\* the sets that may be left running
ShedTo(low, dear, cap, T) == IF ~MustShed(low, cap, T) THEN {T}
    ELSE UNION {ShedTo(low, dear, cap, T \ {u}) : u \in Dearest(low, dear, T)}
-----------------------------------------------------------------------------
(* searching; eps is the accuracy of the costs *)
Beats(a, b, eps) == a.ok /\ (~b.ok \/ DLt(a.f, DSub(b.f, eps)))
\* shutdowns a stage that has S off may settle on
Saves(o, S, eps) == {k \in o[S].may : Beats(o[S \cup {k}], o[S], DNeg(eps))
    /\ \A j \in o[S].sure : ~Beats(o[S \cup {j}], o[S \cup {k}], eps)}
\* it must settle on something
Better(o, S, eps) == {k \in o[S].sure : Beats(o[S \cup {k}], o[S], eps)}
RECURSIVE Ends(_, _, _)
Ends(o, S, eps) == (IF Better(o, S, eps) = {} THEN {S} ELSE {}) \cup UNION {Ends(o, S \cup {k}, eps) : k \in Saves(o, S, eps)}
=============================================================================
