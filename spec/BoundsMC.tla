------------------------------ MODULE BoundsMC ------------------------------
(* How the interior point solver splits rows (variables first) by the kind   *)
(* of their limits into equalities and <= inequalities, and packs the        *)
(* multipliers of those back into lower and upper multipliers per row.       *)
(* A multiplier is represented by the <<row, side>> it belongs to.  Every    *)
(* assignment of kinds is emitted and replayed on the real solver.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxVars, MaxRows, Emit
Kinds == {"free", "lower", "upper", "box", "fixed"}
VARIABLES kinds, nv, ineq, eq, out, phase
vars == <<kinds, nv, ineq, eq, out, phase>>
RECURSIVE Pick(_, _, _)
Pick(ks, k, S) == IF k > Len(ks) THEN <<>> ELSE (IF ks[k] \in S THEN <<k>> ELSE <<>>) \o Pick(ks, k + 1, S)
Tag(rows, side) == [k \in DOMAIN rows |-> <<rows[k], side>>]
Init == /\ \E n \in 1..MaxVars : \E m \in 0..MaxRows : \E ks \in [1..(n + m) -> Kinds] : kinds = ks /\ nv = n
        /\ ineq = <<>> /\ eq = <<>> /\ phase = "split"
        /\ out = [l |-> <<>>, u |-> <<>>, lower |-> <<>>, upper |-> <<>>]
\* inequalities: upper-only, lower-only, upper of boxed, lower of boxed
Split == /\ phase = "split" /\ phase' = "solve"
         /\ eq' = Pick(kinds, 1, {"fixed"})
         /\ ineq' = Tag(Pick(kinds, 1, {"upper"}), "u") \o Tag(Pick(kinds, 1, {"lower"}), "l")
                    \o Tag(Pick(kinds, 1, {"box"}), "u") \o Tag(Pick(kinds, 1, {"box"}), "l")
         /\ UNCHANGED <<kinds, nv, out>>
\* multiplier k of ineq goes to the row the position stands for
Pack == /\ phase = "solve" /\ phase' = "done"
        /\ LET nlt == Len(Pick(kinds, 1, {"upper"}))  ngt == Len(Pick(kinds, 1, {"lower"}))  nbx == Len(Pick(kinds, 1, {"box"}))
               at(s, r) == {k \in DOMAIN s : s[k] = r}
               u(r) == IF kinds[r] = "upper" THEN ineq[CHOOSE k \in at(Pick(kinds, 1, {"upper"}), r) : TRUE]
                       ELSE IF kinds[r] = "box" THEN ineq[nlt + ngt + CHOOSE k \in at(Pick(kinds, 1, {"box"}), r) : TRUE]
                       ELSE IF kinds[r] = "fixed" THEN <<r, "e">> ELSE <<0, "none">>
               lo(r) == IF kinds[r] = "lower" THEN ineq[nlt + CHOOSE k \in at(Pick(kinds, 1, {"lower"}), r) : TRUE]
                       ELSE IF kinds[r] = "box" THEN ineq[nlt + ngt + nbx + CHOOSE k \in at(Pick(kinds, 1, {"box"}), r) : TRUE]
                       ELSE IF kinds[r] = "fixed" THEN <<r, "e">> ELSE <<0, "none">>
           IN out' = [lower |-> [k \in 1..nv |-> lo(k)], upper |-> [k \in 1..nv |-> u(k)],
                      l |-> [k \in 1..(Len(kinds) - nv) |-> lo(nv + k)], u |-> [k \in 1..(Len(kinds) - nv) |-> u(nv + k)]]
        /\ UNCHANGED <<kinds, nv, ineq, eq>>
Next == Split \/ Pack
Spec == Init /\ [][Next]_vars
Back(t, r, side) == t = (IF kinds[r] = "fixed" THEN <<r, "e">> ELSE IF kinds[r] \in {"box", IF side = "l" THEN "lower" ELSE "upper"} THEN <<r, side>> ELSE <<0, "none">>)
RightPlace == phase = "done" =>
    /\ \A k \in 1..nv : Back(out.lower[k], k, "l") /\ Back(out.upper[k], k, "u")
    /\ \A k \in 1..(Len(kinds) - nv) : Back(out.l[k], nv + k, "l") /\ Back(out.u[k], nv + k, "u")
EachOnce == phase # "split" => /\ Cardinality({ineq[k] : k \in DOMAIN ineq}) = Len(ineq)
    /\ Len(ineq) = Cardinality({k \in DOMAIN kinds : kinds[k] \in {"lower", "upper"}}) + 2 * Cardinality({k \in DOMAIN kinds : kinds[k] = "box"})
Emits == (Emit /\ phase = "done") => PrintT(<<"EMIT", ToJson([n |-> nv, kinds |-> kinds])>>)
=============================================================================
