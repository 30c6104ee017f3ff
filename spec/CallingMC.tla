------------------------------ MODULE CallingMC ------------------------------
(* Every call, or sequence of calls on the one case in the caller's hands.   *)
EXTENDS Calling, Json
CONSTANTS Depth, Empties, Emit
VARIABLES source, held, h
vars == <<source, held, h>>
\* what the case carries: groups in or out together
Held == LET parts == {{"A", "l", "u"}, {"N", "Cw"}, {"H"}, {"fparm"}, {"z0", "zl", "zu"}, {"userfcn"}}
        IN {UNION p : p \in SUBSET parts}
Init == /\ source \in Sources
        /\ \E s \in (IF source = "tables" THEN {{}} ELSE Held) : held = [r \in s |-> "case"]
        /\ h = <<>>
Set(s) == {s[i] : i \in DOMAIN s}
Calls == {[n |-> k, none |-> e] : k \in Lengths, e \in SUBSET Roles}
Call == \E k \in Lengths : \E e \in {x \in SUBSET Set(Form(k)) : Cardinality(x) <= Empties} :
            h' = Append(h, [n |-> First(source) + k, none |-> e])
Next == Len(h) < Depth /\ Call /\ UNCHANGED <<source, held>>
Spec == Init /\ [][Next]_vars
Given(c) == [r \in Set(Form(c.n - First(source))) |-> IF r \in c.none THEN "" ELSE "call"]
Last == h[Len(h)]
P(r) == Posed(Given(Last), held, r)
\* an argument that was given is never dropped for what the case says, and nothing is made up
GivenWins == h # <<>> => \A r \in Roles : (Says(Given(Last), r) /\ Says(Given(Last), Group(r))) => P(r) = "call"
NothingMadeUp == h # <<>> => \A r \in Roles : P(r) \in {"", Value(Given(Last), r), Value(held, r)}
\* limits belong to their own matrix, cost weights to theirs
TogetherOrNot == h # <<>> => \A r \in {"l", "u", "Cw"} : P(r) # "" => P(r) = P(Group(r))
CaseSpeaks == h # <<>> => \A r \in InCase : (Says(held, r) /\ Last.n = First(source)) => P(r) = "case"
Emits == (Emit /\ Len(h) = Depth) => PrintT(<<"EMIT", ToJson([source |-> source, held |-> DOMAIN held, calls |-> h])>>)
=============================================================================
