----------------------------- MODULE RegistryMC -----------------------------
(* Every history of registering, removing and toggling up to a depth over a  *)
(* small alphabet; each complete history is printed and replayed on the real *)
(* routines (RegistryTrace judges what they did).                            *)
EXTENDS Registry, TLC, Json
CONSTANTS Depth, Fs, Ss, Ext, Emit
VARIABLES r, h, multi
vars == <<r, h, multi>>
Step(a) == [op |-> a[1], stage |-> a[2], f |-> a[3], args |-> a[4], multi |-> a[5], mode |-> a[6]]
Actions == {<<"add", s, f, x, m, "">> : s \in Ss \cup {"bogus"}, f \in Fs, x \in {"[]", "A"}, m \in BOOLEAN}
           \cup {<<"remove", s, f, "", FALSE, "">> : s \in Ss, f \in Fs}
           \cup {<<"toggle", "", x, "", FALSE, m>> : x \in Ext, m \in {"on", "off", "maybe"}}
           \cup {<<"run", s, "", "", FALSE, "">> : s \in Ss}
Init == r = Empty /\ h = <<>> /\ multi = FALSE
Next == /\ Len(h) < Depth
        /\ \E a \in Actions : /\ r' = Apply(r, Step(a)) /\ h' = Append(h, Step(a))
                              /\ multi' = (multi \/ (a[1] = "add" /\ a[5]))
Spec == Init /\ [][Next]_vars
OnlyWhatWasRegistered == \A s \in StageSet : \A k \in DOMAIN r[s] :
    \E j \in DOMAIN h : \/ h[j].op = "add" /\ h[j].stage = s /\ h[j].f = r[s][k].f /\ h[j].args = r[s][k].args
                        \/ h[j].op = "toggle" /\ h[j].mode = "on" /\ Callback(h[j].f, s) = r[s][k].f
NoDuplicatesUnlessAllowed == ~multi => \A s \in StageSet : Cardinality({r[s][k].f : k \in DOMAIN r[s]}) = Len(r[s])
OffUndoesOn == \A x \in Ext : (\A s \in StageSet : ~Registered(r, s, Callback(x, s))) => Off(On(r, x), x) = r
RemoveUndoesAdd == \A s \in StageSet, f \in Fs : Remove(Add(r, s, f, "A", TRUE), s, f) = r
RemovesOne == \A s \in StageSet, f \in Fs : /\ Len(Remove(r, s, f)[s]) = Len(r[s]) - (IF Registered(r, s, f) THEN 1 ELSE 0)
                                            /\ \A t \in StageSet \ {s} : Remove(r, s, f)[t] = r[t]
Emits == (Emit /\ Len(h) = Depth) => PrintT(<<"EMIT", ToJson(h)>>)
=============================================================================
