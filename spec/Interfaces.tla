----------------------------- MODULE Interfaces -----------------------------
(* Limits on the flow of sets of branches.  The map lists, for interfaces by *)
(* number, branches of the case's own table with a direction; out of it come *)
(* rows of branches in service, and what comes back is per row of the limits *)
(* - whatever order these are listed in - with the map as it was given.      *)
EXTENDS Integers, Sequences, FiniteSets

\* rows of the map: [i |-> interface, b |-> branch, d |-> 1 or -1]
Select(map, P(_)) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN <<>> ELSE S(k - 1) \o (IF P(map[k]) THEN <<map[k]>> ELSE <<>>) IN S(Len(map))
\* what interface i is made of, given the branches in service
Parts(map, i, live) == Select(map, LAMBDA m : m.i = i /\ m.b \in live)

(* the way of the data; on: branches in service in order *)
IfGiven(d) == [stage |-> "given", map |-> d.map, kept |-> <<>>, P |-> <<>>]
Inside(on, b) == CHOOSE k \in DOMAIN on : on[k] = b
IfInward(s, d) == LET live == {d.on[k] : k \in DOMAIN d.on} IN
    [s EXCEPT !.stage = "internal", !.kept = s.map,
              !.map = LET m == Select(s.map, LAMBDA r : r.b \in live) IN [k \in DOMAIN m |-> [m[k] EXCEPT !.b = Inside(d.on, m[k].b)]]]
\* the flow of a row of the limits: the internal branches and directions that make it up
IfSolved(s, d) == [s EXCEPT !.stage = "solved", !.P = [k \in DOMAIN d.lims |-> LET m == Select(s.map, LAMBDA r : r.i = d.lims[k]) IN [j \in DOMAIN m |-> <<m[j].d, d.on[m[j].b]>>]]]
IfOutward(s, d) == [s EXCEPT !.stage = "given", !.map = s.kept]
=============================================================================
